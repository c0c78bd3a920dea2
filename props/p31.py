import os
import pickle
import itertools
import numpy as np
from mc import zoo, engine
from mc.refs import A, Sys
from mc.sp import SP, NL, Angle, Pp, Uu

ID = 'P31'
LEVEL = 'model_checking'
BOUND = ('every interleaving of (construction + 2 operations) of one filter with (construction + 2 operations) of another (3+3 in the thorough tier) for every pair of filter classes and every pair of configurations of one class with different shapes or parameters, '
         'every interleaving of construction + 3 (thorough 4) operations of each configuration with another instance of itself (separately and with all arrays and sigma-point objects shared), and filters built with default arguments whose attributes are edited in place; all numeric attributes of both filters '
         'after every operation are compared exactly with the same filter run alone in a new process')
ASSUMPTIONS = ['the run alone happens in a process forked before any filter exists']


# ------------------------------------------------------------- observing

def numeric(v):
    if isinstance(v, (bool, np.bool_)) or v is None or isinstance(v, str):
        return None
    try:
        a = np.asarray(v)
        if a.dtype.kind not in 'fiu' or not a.size:
            return None
        a = a.astype(float)
        return np.where(np.isfinite(a), a, 12345.)
    except Exception:
        return None


def look(o, pre=''):
    """all numeric attributes, likelihoods, and those of the filters of a bank"""
    r = {}
    for k, v in vars(o).items():
        if k == 'filters':
            for i, f in enumerate(v):
                r.update(look(f, pre + 'filter%d.' % i))
            continue
        if k.startswith('_'):
            continue
        a = numeric(v)
        if a is not None:
            r[pre + k] = a
    for k in ('P', 'Q', 'R', 'x', 'log_likelihood', 'likelihood', 'mahalanobis'):
        if k not in vars(o) and hasattr(type(o), k):
            try:
                a = numeric(getattr(o, k))
            except Exception:
                a = None
            if a is not None:
                r[pre + k] = a
    return r


def sig(o):
    """quick fingerprint of everything look() reports"""
    r = []
    for k, v in vars(o).items():
        if type(v) is np.ndarray and v.dtype.kind == 'f':
            r.append((k, v.shape, v.tobytes()))
        elif type(v) is float or type(v) is int:
            r.append((k, v))
        elif k == 'filters':
            r.append(tuple(sig(f) for f in v))
    return tuple(r)


def see(o):
    return sig(o), look(o)


def diff(o, want):
    """o: a filter, want: what it shows when run alone"""
    s, w = want
    if sig(o) == s:
        return None
    v = look(o)
    for k in w:
        if k not in v:
            return '%s is not numeric any more' % k
        a, b = v[k], w[k]
        if a.shape != b.shape or not ((a == b) | (np.abs(a - b) <= 1e-13 + 1e-12 * np.abs(b))).all():
            return '%s is %r, alone it is %r' % (k, a.tolist(), b.tolist())
    return None


def alone(m, word):
    """list of observations, computed in a child process that has never created a filter"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            np.seterr(all='ignore')
            try:
                c = m.fresh()
                out = [see(c.o)]
                for op in word:
                    m.do(c, op)
                    out.append(see(c.o))
            except Exception as e:
                out = 'raises %s: %s' % (type(e).__name__, e)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        out = pickle.load(f)
    os.waitpid(pid, 0)
    return out


class Pair(engine.Model):
    rtol = 1e-12
    atol = 1e-13

    def __init__(self, name, A_, B_, share):
        """A_, B_: (model, word, observations alone)"""
        self.name, self.w, self.share = name, {'a': A_, 'b': B_}, share
        self.ops = ['a', 'b']
        self.depth = len(A_[1]) + len(B_[1]) + 2

    def init(self):
        return 0, 0

    def step(self, st, op):
        t = (st[0] + (op == 'a'), st[1] + (op == 'b'))
        e = {}
        for who, k in (('a', t[0]), ('b', t[1])):
            m, word, obs = self.w[who]
            if k > len(word) + 1:
                return None
            if isinstance(obs, str):
                e['alone'] = lambda v, o=obs: 'running alone ' + o
            elif k:
                e[who] = lambda v, o=obs[k - 1]: diff(v, o)
        return t, e

    def fresh(self):
        c = engine.Ctx()
        c.pool_ = {} if self.share else None
        c.k = {'a': 0, 'b': 0}
        c.c = {}
        c.frames = lambda: next((f for f in (q.frames() for q in c.c.values()) if f), None)
        return c

    def do(self, c, who):
        m, word, _ = self.w[who]
        engine.Ctx.pool = c.pool_
        try:
            if who not in c.c:
                c.c[who] = m.fresh()
            else:
                m.do(c.c[who], word[c.k[who]])
                c.k[who] += 1
        finally:
            engine.Ctx.pool = None
        r = {'alone': 0}
        for w, q in c.c.items():
            r[w] = q.o
        r['_fp'] = [v for v in vars(r[who]).values() if type(v) is np.ndarray and v.dtype.kind == 'f' and v.size < 40]
        return r


# ------------------------------------------------------------- filters built with default arguments, edited in place

class Default(engine.Model):
    """ops: ('t', k) edit every float array in place; ('p',) ('u', k)"""

    def __init__(self, kind, nx=2, nz=1):
        self.kind, self.nx, self.nz = kind, nx, nz
        self.name = 'default-%s-%dx%d' % (kind, nx, nz)
        self.ops = [('t', 1), ('p',), ('u', 1), ('u', 2), ('t', 2)]

    def init(self):
        return 0

    def step(self, st, op):
        return st, {}

    def fresh(self):
        import filterpy.kalman as K
        c = engine.Ctx()
        n, m, k = self.nx, self.nz, self.kind
        f, h = lambda x, dt: x * .9, lambda x: x[:m]
        if k == 'kf':
            o = K.KalmanFilter(n, m)
        elif k == 'kf-kw':
            o = K.KalmanFilter(dim_x=n, dim_z=m, dim_u=1)
        elif k == 'ekf':
            o = K.ExtendedKalmanFilter(n, m)
        elif k == 'sqrt':
            o = K.SquareRootKalmanFilter(n, m)
        elif k == 'info':
            o = K.InformationFilter(n, m)
            o.F = np.eye(n)
            o.H = np.zeros((m, n))
        elif k == 'fading':
            o = K.FadingKalmanFilter(1.05, n, m)
        elif k == 'ukf':
            o = K.UnscentedKalmanFilter(n, m, .5, h, f, K.MerweScaledSigmaPoints(n, .5, 2., 1.))
        elif k == 'ckf':
            o = K.CubatureKalmanFilter(n, m, .5, h, f)
        elif k == 'hinf':
            from filterpy.hinfinity import HInfinityFilter
            o = HInfinityFilter(n, m, 0, .01)
        elif k == 'fls':
            o = K.FixedLagSmoother(n, m, N=2)
        elif k == 'imm':
            o = K.IMMEstimator([K.KalmanFilter(n, m) for _ in range(2)], [.5, .5], np.array([[.9, .1], [.2, .8]]))
        elif k == 'mmae':
            o = K.MMAEFilterBank([K.KalmanFilter(n, m) for _ in range(2)], [.5, .5], n)
        elif k == 'enkf':
            o = None
        elif k == 'gh':
            from filterpy.gh import GHFilter
            o = GHFilter(0., 0., 1., .8, .2)
        elif k == 'ghk':
            from filterpy.gh import GHKFilter
            o = GHKFilter(0., 0., 0., 1., .8, .2, .1)
        elif k == 'order':
            from filterpy.gh import GHFilterOrder
            o = GHFilterOrder(np.zeros(2), 1., 1, .8, .2)
        elif k == 'mem':
            from filterpy.memory import FadingMemoryFilter
            o = FadingMemoryFilter(np.zeros(2), 1., 1, .7)
        elif k == 'lsq':
            from filterpy.leastsq import LeastSquaresFilter
            o = LeastSquaresFilter(1., 1)
        c.o = o
        return c

    def tweak(self, o, k):
        for n in ('P', 'Q', 'R', 'P_inv', 'R_inv', 'V', 'W'):
            if n in vars(o) or hasattr(type(o), n):
                v = getattr(o, n)
                if isinstance(v, np.ndarray) and v.ndim == 2 and not (n == 'P' and self.kind == 'info'):
                    v *= 1. + .5 * k
                    if n in ('P', 'Q', 'R'):
                        setattr(o, n, v)
        for n in ('F', 'H', 'B', 'K', 'x'):
            v = getattr(o, n, None)
            if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
                v += .25 * k * (np.arange(v.size) + 1.).reshape(v.shape)
        if hasattr(o, 'filters'):
            for i, f in enumerate(o.filters):
                self.tweak(f, k + i)

    def do(self, c, op):
        o, k = c.o, self.kind
        if op[0] == 't':
            self.tweak(o, op[1])
        elif op[0] == 'p':
            if k == 'fls':
                o.smooth(np.full((self.nz, 1), .5))
            elif hasattr(o, 'predict'):
                o.predict()
        else:
            z = 1.5 * op[1]
            col = np.full((self.nz, 1), z)
            if k == 'ekf':
                H = np.eye(self.nx)[:self.nz]
                o.update(col, lambda x: H, lambda x: H.dot(x))
            elif k in ('ukf', 'ckf'):
                o.update(np.full(self.nz, z))
            elif k == 'fls':
                o.smooth(col)
            elif k in ('gh', 'ghk', 'order', 'mem', 'lsq'):
                o.update(z)
            else:
                o.update(col)


DEF = ['kf', 'kf-kw', 'ekf', 'sqrt', 'info', 'fading', 'ukf', 'ckf', 'hinf', 'fls', 'imm', 'mmae', 'gh', 'ghk', 'order', 'mem', 'lsq']


def word(m, k, n):
    """k-th word of length n: predictions and updates alternate"""
    if isinstance(m, Default):
        return ([('t', 1), ('p',), ('u', 1), ('u', 2)] if k == 0 else [('p',), ('u', 2), ('t', 2), ('u', 1)])[:n] if m.kind not in ('ukf', 'ckf') else \
            ([('t', 1), ('p',), ('u', 1), ('p',)] if k == 0 else [('t', 2), ('p',), ('u', 2), ('p',)])[:n]
    ops = {r: [o for o in m.ops if zoo.role(o) == r] for r in 'pu'}
    st, out = m.init(), []
    i = 0
    while len(out) < n and i < 4 * n:
        r = 'pu'[i % 2]
        i += 1
        if not ops[r]:
            continue
        op = ops[r][(k + i // 2) % len(ops[r])]
        q = m.step(st, op)
        if q is not None:
            st = q[0]
            out.append(op)
    return out


def models(tier):
    th = tier == 'thorough'
    n = 4 if th else 3
    ent = [e for e in zoo.entries() if e.kind != 'proc'] + zoo.others()
    s = Sys(2, 2, nu=1, var=23)
    more = [zoo.Entry(SP('ukf_merwe_b', NL(s), ('merwe', .9, 1., 0.), [Pp(), Uu(0), Uu(1, 1)], 4), 'ukf'),
            zoo.Entry(SP('ukf_merwe_c', NL(s), ('merwe', .5, 2., .5), [Pp(), Uu(0), Uu(1, 1)], 4), 'ukf'),
            zoo.Entry(SP('ukf_julier_b', NL(s), ('julier', .25), [Pp(), Uu(0), Uu(1, 1)], 4), 'ukf'),
            zoo.Entry(zoo.Fading('fading_b', s, [zoo.P_, zoo.U(0), zoo.U(1)], 4, 'col', alpha=1.4), 'fading'),
            zoo.Entry(zoo.HInf('hinf_b', s, [('p', None), ('u', 0), ('u', 1)], gamma=.002), 'hinf')]
    ms = [e.m for e in ent + more] + [Default(k) for k in DEF] + [Default(k, 3, 2) for k in DEF[:12]]
    kind = {e.m.name: e.kind for e in ent + more}
    kind.update({m.name: 'default' for m in ms if isinstance(m, Default)})
    w = {}
    for m in ms:
        for k in (0, 1):
            q = tuple(word(m, k, n))
            w[m.name, k] = (m, q, None)
    # one observation per distinct (model, word)
    for key in list(w):
        m, q, _ = w[key]
        obs = alone(m, q)
        w[key] = (m, q, obs)
        w[m.name, 's%d' % key[1]] = (m, q[:n - 1], obs if isinstance(obs, str) else obs[:n])
    out = []
    for m in ms:
        out.append(Pair('self-' + m.name, w[m.name, 0], w[m.name, 1], False))
        if not isinstance(m, Default):
            out.append(Pair('same-' + m.name, w[m.name, 0], w[m.name, 1], True))
    reps = {}
    for m in ms:
        key = kind[m.name] if not isinstance(m, Default) else m.name
        if m.name.startswith(('steady', 'corr', 'ukf_julier-2x1', 'ukf_simplex-2x1', 'ukf_angle-2x1')) and m.name.endswith(('-2x1', '2x1-col')):
            key = m.name
        if '2x1' in m.name or key not in reps:
            reps.setdefault(key, m)
    for a, b in itertools.combinations(list(reps.values()), 2):
        out.append(Pair('x-%s--%s' % (a.name, b.name), w[a.name, 's0'], w[b.name, 's1'], False))
    for k in sorted(set(kind.values())):
        g = [m for m in ms if kind[m.name] == k and not m.name.endswith('-1d')]
        have = set(o.name for o in out)
        for a, b in itertools.combinations(g, 2):
            nm = 'x-%s--%s' % (a.name, b.name)
            if nm not in have and (th or k in ('ukf', 'ckf', 'fading', 'hinf') or len(g) < 12):
                out.append(Pair(nm, w[a.name, 's0'], w[b.name, 's1'], False))
    return out
