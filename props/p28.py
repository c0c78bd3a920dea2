import bisect
import itertools
import math
from fractions import Fraction as Fr
import numpy as np
from mc import engine, rng

ID = 'P28'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('every weight vector k/M (k compositions of M, zeros allowed; M in 4,5,6,10) of 1-5 particles (1-6 thorough) plus badly scaled, rounded and long (50-70000 particles, around the limits of the small integer types) vectors as list, tuple and array, against every choice of the random '
         'generator from: the full product of {0.07,0.5,0.93} per draw, all midpoints of a grid that makes the averages exact, and the extreme draws 0 and 1-2^-53 in every position')
ASSUMPTIONS = ['random numbers are drawn through numpy.random (random, rand, uniform, random_sample); draws that fall within 1e-9 of a boundary of the cumulative weights may select either neighbour', 'weights sum to one up to rounding']
TOP = 1 - 2.0 ** -53


def fn(name):
    import filterpy.monte_carlo as m
    return getattr(m, name + '_resample')


def run(name, w, us):
    rng.install(rng.Script(uniforms=list(us)))
    try:
        return fn(name)(w)
    finally:
        rng.install(None)


def inverse(cum, W, p):
    """indexes the position may select (several when it is on a boundary)"""
    i, j = bisect.bisect_right(cum, p - 1e-9), bisect.bisect_left(cum, p + 1e-9)
    return [k for k in range(i, min(j, len(cum) - 1) + 1) if W[k] > 0]


def plan(name, W, us):
    """allowed index set for each of the N selections"""
    N = len(W)
    u = lambda i: us[i % len(us)]
    cum = [float(c) for c in itertools.accumulate(W)]
    if name == 'systematic':
        return [inverse(cum, W, (u(0) + i) / N) for i in range(N)]
    if name == 'stratified':
        return [inverse(cum, W, (u(i) + i) / N) for i in range(N)]
    if name == 'multinomial':
        return [inverse(cum, W, u(i)) for i in range(N)]
    n = [math.floor(N * w) for w in W]
    out = [[i] for i in range(N) for _ in range(n[i])]
    R = N - len(out)
    if R > 0:
        r = [N * w - k for w, k in zip(W, n)]
        if any(1 - q < 1e-9 for q in r):
            return None                  # a whole copy lost or won by rounding
        T = sum(r)
        cum = [float(c / T) for c in itertools.accumulate(r)]
        out += [inverse(cum, r, u(i)) for i in range(R)]
    return out


def valid(W, idx):
    N = len(W)
    a = np.asarray(idx)
    if a.shape != (N,) or a.dtype.kind not in 'iu':
        return ('must return %d integer indexes' % N, None, idx)
    if ((a < 0) | (a >= N)).any():
        return ('index out of range', None, a)
    if any(W[i] == 0 for i in a):
        return ('selected a particle of zero weight', None, a)
    return None


def forms(w, k):
    return [list(w), np.array(w), tuple(w)][k % 3]


def check(case):
    name, W, us, exact, form = case
    w = forms([float(q) for q in W], form)
    keep = np.array(w)
    idx = run(name, w, us)
    if not (np.array(w) == keep).all() or len(w) != len(keep):
        return ('weights were modified', keep, w), None
    e = valid(W, idx)
    if e:
        return e, None
    if exact:
        p = plan(name, W, us)
        if p is not None:
            a = [int(i) for i in idx]
            ok = all(i in s for i, s in zip(a, p))
            if not ok and name == 'residual':      # any order
                ok = sorted(a) == sorted(s[0] for s in p) or matched(a, p)
            if not ok:
                return ('selection', [s if len(s) > 1 else s[0] for s in p], a), None
    return None, (name, tuple(int(i) for i in idx))


def matched(a, p):
    a = list(a)
    for s in sorted(p, key=len):
        for i in s:
            if i in a:
                a.remove(i)
                break
        else:
            return False
    return True


def average(case):
    """averaged over a midpoint grid on which the number of copies is exactly integrated"""
    name, W, form = case
    N = len(W)
    M = math.lcm(*[q.denominator for q in W])
    if name == 'residual':
        R = N - sum(math.floor(N * q) for q in W)
        J = M * max(R, 1)
    else:
        J = M
    tot = np.zeros(N)
    w = forms([float(q) for q in W], form)
    for j in range(J):
        u = (j + .5) / J
        idx = run(name, w, [u])
        e = valid(W, idx)
        if e:
            return e, None
        tot += np.bincount(np.asarray(idx), minlength=N)
    want = [float(N * q) for q in W]
    if name == 'residual' and any(float(N) * float(q) != float(N * q) for q in W):
        return None, 'rounding'
    if not engine.close(tot / J, want, 1e-12, 1e-12):
        return ('average number of copies over all uniform draws', want, tot / J), None
    return None, (name, tuple(tot))


def comps(M, N):
    if N == 1:
        yield (M,)
        return
    for k in range(M + 1):
        for r in comps(M - k, N - 1):
            yield (k,) + r


NAMES = ('systematic', 'stratified', 'residual', 'multinomial')


def weights(th):
    for N in range(1, 7 if th else 6):
        for M in (4, 5, 6, 10):
            if M == 10 and N > (5 if th else 4):
                continue
            for c in comps(M, N):
                yield tuple(Fr(k, M) for k in c)


def sel_cases(name, th):
    def g():
        for n, W in enumerate(weights(th)):
            N = len(W)
            vals = (.07, .5, .93)
            if name == 'systematic':
                vs = [(v,) for v in (.07, .21, .34, .5, .66, .81, .93)]
            elif N <= 3 or th:
                vs = itertools.product(vals, repeat=N)
            else:
                vs = [tuple(vals[(a + b * i) % 3] for i in range(N)) for a in range(3) for b in range(3)]
            for v in vs:
                yield name, W, v, 'exact', n
            ext = itertools.product((0., TOP), repeat=1 if name == 'systematic' else min(N, 4))
            for v in ext:
                yield name, W, v, False, n
            if len(set(W)) > 1:
                # a draw exactly on (and next to) every boundary
                cum = np.cumsum([float(q) for q in W])
                for b in cum[:-1]:
                    for v in (b, (b * N) % 1., np.nextafter(b, 0), np.nextafter(b, 1)):
                        if 0 <= v < 1:
                            yield name, W, (float(v),), 'exact', n
    return g


def avg_cases(th):
    for n, W in enumerate(weights(th)):
        for name in NAMES:
            yield name, W, n


def odd():
    r = np.random.RandomState(3)
    out = []
    for N in (6, 17, 50, 1000):
        for k in range(4):
            w = r.rand(N) ** (1, 4, 20, 1)[k]
            if k == 3:
                w[::3] = 0
            out.append(w / w.sum())
        out.append(np.full(N, 1. / N))
        d = np.zeros(N)
        d[N // 2] = 1
        out.append(d)
        d = np.zeros(N)
        d[-1] = 1
        out.append(d)
    out += [np.array([1e-300, 1., 0.]), np.array([1., 1e-17, 1e-17]), np.array([1e-17, 1e-17, 1.]), np.array([0., .1, .2, .3, .4, 0.]), np.array([.1] * 10), np.array([.7, .1, .1, .1]),
            np.array([1. / 3] * 3), np.array([1. / 49] * 49), np.array([.29, .71])]
    return out


def odd_cases():
    for n, w in enumerate(odd()):
        W = tuple(float(q) for q in w)
        for name in NAMES:
            for v in (.07, .31, .5, .77, .93):
                yield name, W, (v,), 'float', n
            for v in ((.03, .41, .97), (.9, .1), (.33, .66, .2, .85, .5, .01, .72)):
                yield name, W, v, 'float', n
            for v in ((0.,), (TOP,), (0., TOP), (TOP, 0.)):
                yield name, W, v, False, n


def large_w(N, kind):
    k = {0: N, 1: 1, 2: N - N // 2, 3: 3 if N < 1000 else 30}[kind]
    return [0.] * (N - k) + [1. / k] * k


def large_cases():
    """particle numbers around the limits of the small integer types"""
    n = 0
    for N in (127, 128, 129, 130, 200, 255, 256, 257, 300, 4095, 32767, 32768, 32769, 40000, 65535, 65537, 70000):
        for kind in range(4):
            n += 1
            for name in NAMES:
                for v in ((.5,), (.07,), (.93, .2)):
                    if N < 1000 or v == (.5,):
                        yield name, N, kind, v, n


def large_check(case):
    """range, shape, zero weights, monotone copies: every particle N w times up to one (two for the schemes with independent draws are not bounded)"""
    name, N, kind, v, n = case
    W = large_w(N, kind)
    idx = run(name, forms(W, n), v)
    e = valid(W, idx)
    if e:
        return ('%s_resample of %d particles: %s' % (name, N, e[0]), None, str(e[2])[:60]), None
    if name != 'multinomial':
        c = np.bincount(np.asarray(idx), minlength=N) - N * np.array(W)
        lim = {'systematic': 1., 'stratified': 2.}.get(name)
        if lim is not None and np.abs(c).max() > lim + 1e-6 or name == 'residual' and c.min() < -1 - 1e-6:
            return ('%s_resample of %d particles: number of copies' % (name, N), None, (c.min(), c.max())), None
    return None, (name, N, int(idx[0]), int(idx[-1]), int(idx[N // 3]))


def part(f, i, n):
    return lambda: itertools.islice(f(), i, None, n)


def models(tier):
    th = tier == 'thorough'
    out = []
    for n in NAMES:
        for i in range(4):
            out.append(engine.GridFn('select-%s-%d' % (n, i), part(sel_cases(n, th), i, 4), check))
    for i in range(4):
        out.append(engine.GridFn('average-%d' % i, part(lambda: avg_cases(th), i, 4), average))
        out.append(engine.GridFn('odd-%d' % i, part(odd_cases, i, 4), check))
    for i in range(8):
        out.append(engine.GridFn('large-%d' % i, part(large_cases, i, 8), large_check))
    return out
