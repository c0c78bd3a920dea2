import itertools
import math
import numpy as np
from mc import engine, refs, lin, kfs, sp, zoo
from mc.refs import A, Sys
from mc.poly import phi, gains

ID = 'P04'
LEVEL = 'model_checking'
BOUND = ('every measurement sequence over {z0, z1, missing} of length 1-4 (quick) / 1-6 (thorough) x every split into two consecutive batches x both orders x every single per-step list of models/noises/controls, several combinations, single '
         'matrices, lists with None entries x column / 1-D states x measurement forms x with and without saver, for the linear (object and procedural), unscented (4 point schemes, Rs, constant and per-step dts, UT), '
         'fading-memory, H-infinity, g-h and g-h-k batch functions; results, priors, saved history, the final state and the continuation with single steps are compared with an independent step-by-step reference')
BOUND += '; larger problems (dim_x x dim_z 6x4 (part of the histories)) at smaller depth'
ASSUMPTIONS = ['H-infinity batch processing is compared with the same filter stepped by hand', 'the g-h batch functions work on scalars and do not alter the filter (documented), their saver only has to record every epoch']


class Err(Exception):
    pass


def need(name, got, want, shape=None, rtol=1e-8):
    if shape is not None and np.shape(got) != shape:
        raise Err((name + ' shape', shape, np.shape(got)))
    if not engine.close(got, want, rtol, 1e-10):
        raise Err((name, A(want).tolist(), A(got).tolist()))


def wrap(f):
    def g(case):
        try:
            fp = f(case)
        except Err as e:
            return e.args[0], None
        return None, tuple(np.round(np.ravel(fp), 7).tolist())
    return g


def seqs(n, letters=(0, 1, None)):
    for k in range(1, n + 1):
        for q in itertools.product(letters, repeat=k):
            yield q


def splits(q):
    return [len(q)] + list(range(1, len(q)))


def check_saver(sv, n, xs, Ps):
    if len(sv) != n:
        raise Err(('saver length', n, len(sv)))
    need('saved x', [np.ravel(v) for v in sv.x], xs)
    need('saved P', sv.P, Ps)


# ------------------------------------------------------------- linear filter

MASKS = ['', 'F', 'Q', 'H', 'R', 'h', 'u', 'uB', 'B', 'FQ', 'HR', 'FQHRuB', 'v', 'r', 'hR']


def lists(s, mask, n, xf, c, off=0):
    """per-step arguments as given to the batch function"""
    kw = {}
    g = lambda L, nm: c.give(L, nm)
    us = lambda i: s.u[i % 4].reshape(-1, 1).copy() if xf == 'col' else s.u[i % 4].copy()
    R = range(off, off + n)
    for m in mask:
        if m in 'FQHRB':
            kw[m + 's'] = g([getattr(s, m)[(i + 1) % 4].copy() for i in R], m + 's')
        elif m == 'h':
            kw['Hs'] = g(s.H[2].copy(), 'Hs')
        elif m == 'u':
            kw['us'] = g([us(i) for i in R], 'us')
        elif m == 'v':
            kw['us'] = g([us(i) if i % 2 else None for i in R], 'us')
        elif m == 'r':
            kw['Rs'] = g([s.R[i % 4].copy() if i % 2 else None for i in R], 'Rs')
    return kw


def step_mats(s, mask, i):
    F, Q, H, R, B, u = s.F[0], s.Q[0], s.H[0], s.R[0], s.B[0], None
    j = (i + 1) % 4
    if 'F' in mask:
        F = s.F[j]
    if 'Q' in mask:
        Q = s.Q[j]
    if 'H' in mask:
        H = s.H[j]
    if 'h' in mask:
        H = s.H[2]
    if 'R' in mask:
        R = s.R[j]
    if 'r' in mask and i % 2:
        R = s.R[i % 4]
    if 'B' in mask:
        B = s.B[j]
    if 'u' in mask or ('v' in mask and i % 2):
        u = s.u[i % 4]
    return F, Q, H, R, None if u is None else B.dot(u)


def reference(s, mask, first, seq, zf, x, P, off=0, alpha=1.):
    m, C, mp, Cp, ends = [], [], [], [], []
    for k, z in enumerate(seq):
        F, Q, H, R, Bu = step_mats(s, mask, off + k)
        for w in ('up' if first else 'pu'):
            if w == 'p':
                x, P = refs.predict(x, P, F, Q, Bu, alpha)
                mp.append(x)
                Cp.append(P)
            else:
                if z is not None:
                    x, P, _, _, _ = refs.update(x, P, lin.zval(s.z[z], zf), H, R)
                m.append(x)
                C.append(P)
        ends.append((x, P))
    return m, C, mp, Cp, x, P, ends


def zlist(s, seq, zf, c):
    if zf == 'array':
        return c.give(A([s.z[z] for z in seq]), 'zs')
    if zf == 'array1':
        return c.give(A([s.z[z][0] for z in seq]), 'zs')
    L = [None if z is None else lin.zform(s.z[z], zf) for z in seq]
    return c.give(L, 'zs')


def kf_check(case):
    from filterpy.kalman import KalmanFilter
    from filterpy.common import Saver
    (nx, nz, var), xf, mask, zf, first, cut, save, seq, after = case
    s = Sys(nx, nz, nu=1, var=var)
    c = lin.KF('x', s, [], 1, xf, ctl=True).fresh()
    o = c.o
    sv = Saver(o) if save else None
    x, P = s.x0, s.P0
    got, want, ends = [[], [], [], []], [[], [], [], []], []
    for a, b in ((0, cut), (cut, len(seq))):
        if a == b:
            continue
        q = seq[a:b]
        kw = lists(s, mask, len(q), xf, c, a)
        if first:
            kw['update_first'] = True
        if save:
            kw['saver'] = sv
        r = o.batch_filter(zlist(s, q, zf, c), **kw)
        for k in range(4):
            c.hold(r[k], 'batch result')
            got[k] += list(r[k])
        w = reference(s, mask, first, q, zf if zf not in ('array', 'array1') else '1d', x, P, a)
        for k in range(4):
            want[k] += w[k]
        x, P = w[4], w[5]
        ends += w[6]
    n = len(seq)
    xs = (n, nx, 1) if xf == 'col' else (n, nx)
    for k, (nm, shp) in enumerate((('means', xs), ('covariances', (n, nx, nx)), ('predicted means', xs), ('predicted covariances', (n, nx, nx)))):
        need(nm, A(got[k]), want[k], shp)
    need('final x', o.x, x, (nx, 1) if xf == 'col' else (nx,))
    need('final P', o.P, P, (nx, nx))
    need('final prior', o.x_prior, want[2][-1])
    need('final posterior', o.x_post, want[0][-1])
    need('final prior covariance', o.P_prior, want[3][-1])
    need('final posterior covariance', o.P_post, want[1][-1])
    if save:
        check_saver(sv, n, [e[0] for e in ends], [e[1] for e in ends])
    if after:
        o.predict()
        o.update(lin.zform(s.z[2], 'col' if nz > 1 else 'scalar'))
        x, P = refs.predict(x, P, s.F[0], s.Q[0])
        x, P, _, _, _ = refs.update(x, P, s.z[2], s.H[0], s.R[0])
        need('x of the next cycle', o.x, x)
        need('P of the next cycle', o.P, P)
    f = c.frames()
    if f:
        raise Err(f)
    return want[0]


def kf_cases(shape, th):
    def g():
        nx, nz, _ = shape
        for xf in ('col', '1d'):
            for mask in MASKS:
                base = mask in ('', 'FQHRuB')
                for first in (False, True):
                    zfs = ['col', '1d'] + (['scalar', 'row'] if nz == 1 else ['list'])
                    for n, q in enumerate(seqs(6 if th and base else 5 if th else 4 if base else 3)):
                        for cut in splits(q):
                            if cut != len(q) and not (base or len(q) < 3):
                                continue
                            zf = zfs[(n + cut) % len(zfs)]
                            yield shape, xf, mask, zf, first, cut, bool((n + cut) % 2), q, bool(n % 3)
                    if base or mask == 'F':
                        for q in seqs(4, (0, 1)):
                            yield shape, xf, mask, 'array', first, len(q), True, q, True
                            if nz == 1:
                                yield shape, xf, mask, 'array1', first, len(q), False, q, True
    return g


# ------------------------------------------------------------- procedural

class Dummy(object):
    def __init__(self):
        self.a = np.zeros(1)


def proc_check(case):
    from filterpy.kalman import batch_filter
    from filterpy.common import Saver
    (nx, nz, var), xf, mask, zf, first, seq = case
    s = Sys(nx, nz, nu=1, var=var)
    c = engine.Ctx()
    n = len(seq)
    full = lists(s, mask, n, xf, c)
    for k in 'FQHR':
        if k + 's' not in full:
            full[k + 's'] = c.give([getattr(s, k)[0].copy() for _ in seq], k + 's')
    if 'us' in full and 'Bs' not in full:
        full['Bs'] = c.give([s.B[0].copy() for _ in seq], 'Bs')
    if 'us' not in full:
        full.pop('Bs', None)
    sv = Saver(Dummy())
    x = s.x0.reshape(-1, 1).copy() if xf == 'col' else s.x0.copy()
    r = batch_filter(c.give(x, 'x'), c.give(s.P0.copy(), 'P'), zlist(s, seq, zf, c), update_first=first, saver=sv, **full)
    w = reference(s, mask, first, seq, zf, s.x0, s.P0)
    xs = (n, nx, 1) if xf == 'col' else (n, nx)
    for k, (nm, shp) in enumerate((('means', xs), ('covariances', (n, nx, nx)), ('predicted means', xs), ('predicted covariances', (n, nx, nx)))):
        need(nm, r[k], w[k], shp)
    if len(sv) != n:
        raise Err(('saver length', n, len(sv)))
    f = c.frames()
    if f:
        raise Err(f)
    return w[0]


def proc_cases(shape, th):
    def g():
        for xf in ('col', '1d'):
            for mask in ('', 'F', 'Q', 'H', 'R', 'u', 'uB', 'FQ', 'FQHRuB'):
                for first in (False, True):
                    for n, q in enumerate(seqs(5 if th else 3)):
                        yield shape, xf, mask, ('col', '1d')[n % 2] if xf == 'col' or shape[1] == 1 else '1d', first, q
    return g


# ------------------------------------------------------------- unscented

FAMS = [('merwe', .5, 2., 1.), ('julier', 1.), ('simplex',), ('angle', .5, 2., 1.)]


def ukf_model(fi, nx, nz):
    s = Sys(nx, nz, nu=1, var=31)
    f = FAMS[fi]
    if f[0] == 'angle':
        return sp.SP('x', sp.Angle(s), ('merwe',) + f[1:], [], 1)
    return sp.SP('x', sp.NL(s), f, [], 1)


def ukf_check(case):
    from filterpy.common import Saver
    fi, (nx, nz), seq, Rs, dts, UT, cut, form = case
    m = ukf_model(fi, nx, nz)
    s = m.pr.s
    c = m.fresh()
    o = c.o
    st = m.init()
    X, PP = [], []
    dt_i = lambda i: None if dts is None else dts if isinstance(dts, float) else [.3, .7, .2, 1.][i % 4]
    R_i = lambda i: None if Rs is None or (Rs == 'none' and i % 2) else (i + 1) % 4
    for i, z in enumerate(seq):
        q = m.step(st, ('p', dt_i(i), None, 'UT' if UT else None))
        if q is None:
            return [0.]
        st = q[0]
        q = m.step(st, ('n',) if z is None else ('u', z, R_i(i), None, 'UT' if UT else None))
        if q is None:
            return [0.]
        st = q[0]
        X.append(st['x'])
        PP.append(st['P'])
    sv = Saver(o)
    g1, g2 = [], []
    for a, b in ((0, cut), (cut, len(seq))):
        if a == b:
            continue
        kw = {}
        if Rs is not None:
            kw['Rs'] = c.give([None if R_i(i) is None else s.R[R_i(i)].copy() for i in range(a, b)], 'Rs')
        if dts is not None:
            kw['dts'] = dts if isinstance(dts, float) else c.give([dt_i(i) for i in range(a, b)], 'dts')
        if UT:
            kw['UT'] = sp.custom_ut
        zs = [None if z is None else (float(s.z[z][0]) if form == 'scalar' else s.z[z].copy()) for z in seq[a:b]]
        if form == 'array':
            zs = A(zs)
        r = o.batch_filter(c.give(zs, 'zs'), saver=sv, **kw)
        c.hold(r[0], 'batch means')
        c.hold(r[1], 'batch covariances')
        g1 += list(r[0])
        g2 += list(r[1])
    n = len(seq)
    need('means', A(g1), X, (n, nx), 1e-6)
    need('covariances', A(g2), PP, (n, nx, nx), 1e-6)
    need('final x', o.x, X[-1], (nx,), 1e-6)
    need('final P', o.P, PP[-1], (nx, nx), 1e-6)
    if len(sv) != n:
        raise Err(('saver length', n, len(sv)))
    need('saved x', sv.x, X, None, 1e-6)
    need('saved P', sv.P, PP, None, 1e-6)
    f = c.frames()
    if f:
        raise Err(f)
    return X


def ukf_cases(fi, shape, th):
    def g():
        nx, nz = shape
        for Rs in (None, 'list', 'none'):
            for dts in (None, .25, 'list'):
                for n, q in enumerate(seqs(4 if th else 3)):
                    for cut in splits(q):
                        if cut != len(q) and not (Rs == 'list' and dts == 'list'):
                            continue
                        forms = ['1d'] + (['scalar'] if nz == 1 else []) + (['array'] if None not in q else [])
                        yield fi, shape, q, Rs, dts, bool(n % 2), cut, forms[n % len(forms)]
    return g


# ------------------------------------------------------------- fading memory / H infinity

def fad_check(case):
    (nx, nz, var), Rs, first, cut, seq = case
    s = Sys(nx, nz, nu=1, var=var)
    c = kfs.Fading('x', s, [], 1, 'col', alpha=1.15).fresh()
    mask = {None: '', 'list': 'R', 'none': 'r'}[Rs]
    got, want = [[], [], [], []], [[], [], [], []]
    x, P = s.x0, s.P0
    for a, b in ((0, cut), (cut, len(seq))):
        if a == b:
            continue
        q = seq[a:b]
        kw = lists(s, mask, len(q), 'col', c, a)
        if first:
            kw['update_first'] = True
        r = c.o.batch_filter(zlist(s, q, 'col', c), **kw)
        w = reference(s, mask, first, q, 'col', x, P, a, 1.15)
        for k in range(4):
            got[k] += list(r[k])
            want[k] += w[k]
            c.hold(r[k], 'batch result')
        x, P = w[4], w[5]
    n = len(seq)
    for k, (nm, shp) in enumerate((('means', (n, nx, 1)), ('covariances', (n, nx, nx)), ('predicted means', (n, nx, 1)), ('predicted covariances', (n, nx, nx)))):
        need(nm, A(got[k]), want[k], shp)
    need('final x', c.o.x, x)
    need('final P', c.o.P, P)
    f = c.frames()
    if f:
        raise Err(f)
    return want[0]


def fad_cases(shape, th):
    def g():
        for Rs in (None, 'list', 'none'):
            for first in (False, True):
                for q in seqs(5 if th else 4):
                    for cut in splits(q):
                        yield shape, Rs, first, cut, q
    return g


def hinf_check(case):
    from filterpy.common import Saver
    (nx, nz, var), first, cut, seq = case
    s = Sys(nx, nz, nu=1, var=var)
    m = zoo.HInf('x', s, [])
    c, d = m.fresh(), m.fresh()
    X, P, E = [], [], []
    for z in seq:
        for w in ('up' if first else 'pu'):
            if w == 'p':
                d.o.predict()
            else:
                d.o.update(None if z is None else s.z[z].reshape(-1, 1))
                X.append(d.o.x.copy())
                P.append(d.o.P.copy())
        E.append((d.o.x.copy(), d.o.P.copy()))
    sv = Saver(c.o)
    g1, g2 = [], []
    for a, b in ((0, cut), (cut, len(seq))):
        if a == b:
            continue
        r = c.o.batch_filter(zlist(s, seq[a:b], 'col', c), update_first=first, saver=sv)
        g1 += list(r[0])
        g2 += list(r[1])
    need('means', A(g1), X, (len(seq), nx, 1))
    need('covariances', A(g2), P, (len(seq), nx, nx))
    need('final x', c.o.x, E[-1][0])
    need('final P', c.o.P, E[-1][1])
    check_saver(sv, len(seq), [e[0] for e in E], [e[1] for e in E])
    f = c.frames()
    if f:
        raise Err(f)
    return X


def hinf_cases(shape, th):
    def g():
        for first in (False, True):
            for q in seqs(5 if th else 4):
                for cut in splits(q):
                    yield shape, first, cut, q
    return g


# ------------------------------------------------------------- g-h

def gh_check(case):
    from filterpy.gh import GHFilter, GHKFilter
    from filterpy.common import Saver
    kind, dt, g, x0, seq, pred, form = case
    zs = {0: 1.3, 1: -2.1}
    data = [zs[z] for z in seq]
    n = 2 if kind == 'gh' else 3
    o = GHFilter(x0[0], x0[1], dt, g[0], g[1]) if kind == 'gh' else GHKFilter(x0[0], x0[1], x0[2], dt, *g)
    F, K = phi(n, dt), gains(n, dt, *g) if kind == 'ghk' else gains(n, dt, g[0], g[1])
    X = A(x0[:n])
    R, PR = [X[:2]], []
    for z in data:
        p = F.dot(X)
        X = p + K * (z - p[0])
        R.append(X[:2])
        PR.append(p[0])
    arg = np.array(data) if form == 'array' else tuple(data) if form == 'tuple' else data
    keep = list(data)
    before = {k: (np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()}
    for rep in range(2):
        kw = {}
        sv = None
        if kind == 'gh' and form != 'tuple':
            sv = kw['saver'] = Saver(o)
        r = o.batch_filter(arg, save_predictions=True, **kw) if pred else o.batch_filter(arg, **kw)
        res, pr = r if pred else (r, None)
        need('results', res, R, (len(data) + 1, 2))
        if pred:
            need('predictions', pr, PR, (len(data),))
        if sv is not None and len(sv) != len(data):
            raise Err(('saver length', len(data), len(sv)))
        for k, v in before.items():
            if not np.array_equal(A(v) if v is not None else 0, A(getattr(o, k)) if getattr(o, k) is not None else 0, equal_nan=True):
                raise Err(('batch_filter altered ' + k, v, getattr(o, k)))
    if list(arg) != keep:
        raise Err(('data modified', keep, arg))
    for z, w in zip(data, R[1:]):                     # the same, step by step
        o.update(z)
        need('step-by-step x, dx', [o.x, o.dx], w)
    return R


def gh_cases(th):
    def g():
        for kind in ('gh', 'ghk'):
            for dt in (1., .5, .1):
                for gg in ((.6, .3, .1), (.9, .8, .5), (.2, .02, .001), (0., 0., 0.), (1., 1., 1.)):
                    for x0 in ((0., 0., 0.), (1.5, -2., .7), (-1, 2, 3)):
                        for n, q in enumerate(seqs(6 if th else 4, (0, 1))):
                            yield kind, dt, gg if kind == 'ghk' else gg[:2], x0, q, bool(n % 2), ('list', 'array', 'tuple')[n % 3]
    return g


def part(f, i, n):
    return lambda: itertools.islice(f(), i, None, n)


def models(tier):
    th = tier == 'thorough'
    out = []
    for shape in ((1, 1, 31), (2, 1, 31), (2, 2, 31), (3, 2, 31)) if not th else ((1, 1, 31), (2, 1, 31), (2, 2, 31), (3, 2, 31), (2, 3, 31), (3, 1, 31)):
        t = '%dx%d' % shape[:2]
        out += [engine.GridFn('kf-%s-%d' % (t, i), part(kf_cases(shape, th), i, 4), wrap(kf_check)) for i in range(4)]
        out += [engine.GridFn('procedural-' + t, proc_cases(shape, th), wrap(proc_check)),
                engine.GridFn('fading-' + t, fad_cases(shape, th), wrap(fad_check)), engine.GridFn('hinf-' + t, hinf_cases(shape, th), wrap(hinf_check))]
    for fi in range(len(FAMS)):
        for shape in ((1, 1), (2, 1), (2, 2)) if not th else ((1, 1), (2, 1), (2, 2), (3, 2)):
            if FAMS[fi][0] == 'angle' and shape[0] < 2:
                continue
            out.append(engine.GridFn('ukf-%s-%dx%d' % ((FAMS[fi][0],) + shape), ukf_cases(fi, shape, th), wrap(ukf_check)))
    out.append(engine.GridFn('gh', gh_cases(th), wrap(gh_check)))
    big = (6, 4, 31)
    for n, g, f in (('kf', kf_cases, kf_check), ('procedural', proc_cases, proc_check), ('fading', fad_cases, fad_check), ('hinf', hinf_cases, hinf_check)):
        out.append(engine.GridFn(n + '-big', part(g(big, False), 0, 7), wrap(f)))
    for fi in range(len(FAMS)):
        out.append(engine.GridFn('ukf-%s-big' % FAMS[fi][0], part(ukf_cases(fi, (6, 4), False), 0, 7), wrap(ukf_check)))
    return out
