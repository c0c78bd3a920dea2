import math
import numpy as np
from mc import zoo, engine
from mc.refs import A, Sys
from mc.sp import NL, DW
from mc.ekfnl import EKFNon, ROWS
from mc.kfs import Seq
from mc.lin import P_, U, N_
from mc.poly import Poly, LSQ

ID = 'P42'
LEVEL = 'model_checking'
BOUND = ('every filter class (linear incl. steady-state and correlated operations, procedural, square-root, information, extended, unscented with 3 point schemes, cubature, ensemble, fading-memory, H-infinity, IMM, multiple-model bank, fixed-lag, '
         'g-h family, fading-memory polynomial, least squares) in units scaled by powers of two between 2^-60 and 2^60, the same for all or different for every component of state and measurement (and other units of time for the polynomial filters): every history of its alphabet up to depth 3-4 (quick) / 4-5 (thorough); '
         'all estimates, covariances, gains, residuals, weights, records and log-likelihoods, converted back, equal those in the original units; batch filters, smoothers, unscented transform, Gaussian and discretization functions likewise; dim_x 1-3, dim_z 1-2')
ASSUMPTIONS = ['numbers stay far from the limits of the floating-point range']


class Units(Sys):
    """the system of `base` in other units: x' = D x, z' = E z"""

    def __init__(self, base, D, E):
        s = self.base = base
        self.scale = 1.
        self.D, self.E = D, E
        n, m = s.nx, s.nz
        d, e = A(D)[:n], A(E)[:m]
        self.d, self.e = d, e
        self.nx, self.nz, self.nu = n, m, s.nu
        dd, ee, de, ed = np.outer(d, d), np.outer(e, e), np.outer(d, 1 / e), np.outer(e, 1 / d)
        self.x0, self.x1 = d * s.x0, d * s.x1
        self.P0, self.P1 = dd * s.P0, dd * s.P1
        self.F = [np.outer(d, 1 / d) * F for F in s.F]
        self.Q = [dd * Q for Q in s.Q]
        self.H = [ed * H for H in s.H]
        self.R = [ee * R for R in s.R]
        self.B = [d[:, None] * B for B in s.B]
        self.u = s.u
        self.z = [e * z for z in s.z]
        self.M = np.outer(d, e) * s.M
        self.K0 = .3 * de * s.H[1].T
        self.sq, self.sr = s.sq * d[0] ** 2, s.sr * e[0] ** 2


class UNL(NL):
    def __init__(self, s):
        NL.__init__(self, s)
        self.o = NL(s.base) if isinstance(s, Units) else None
        self.ud, self.ue = (s.d, s.e) if self.o else (1., 1.)

    def f(self, x, dt, w=DW):
        return NL.f(self, x, dt, w) if self.o is None else self.ud * self.o.f(x / self.ud, dt, w)

    def h(self, x, w=DW):
        return NL.h(self, x, w) if self.o is None else self.ue * self.o.h(x / self.ud, w)


class UEKF(EKFNon):
    def pad(self, v):
        e = np.ones(ROWS)
        e[:len(v)] = v
        return e

    def hvec(self, x, *a):
        s = self.sys
        return EKFNon.hvec(self, x, *a) if not isinstance(s, Units) else self.pad(s.e) * EKFNon.hvec(self, x / s.d, *a)

    def jac(self, x, *a):
        s = self.sys
        return EKFNon.jac(self, x, *a) if not isinstance(s, Units) else np.outer(self.pad(s.e), 1 / s.d) * EKFNon.jac(self, x / s.d, *a)


    def wrap(self, v):
        s = self.sys
        if not isinstance(s, Units):
            return EKFNon.wrap(self, v)
        e = s.e.reshape(np.shape(v))
        return e * EKFNon.wrap(self, v / e)


class UHInf(zoo.HInf):
    def fresh(self):
        c = zoo.HInf.fresh(self)
        s = self.s
        if isinstance(s, Units):
            c.o.Q = np.outer(1 / s.d, 1 / s.d) * s.base.Q[0]      # a weight on the error
        return c


KINDS = {}
for _k, _v in (('x', 'x x_prior x_post x_s'), ('xx', 'P P_prior P_post sigmas_P'), ('-xx', 'P_inv P_inv_prior P_inv_post'), ('xz', 'K'), ('z', 'y z'), ('zz', 'S'), ('-zz', 'SI'),
               ('rx', 'sigmas sigmas_f xSmooth'), ('rz', 'sigmas_h'), ('1', 'mu p mahalanobis'), ('l', 'log_likelihood')):
    for _n in _v.split():
        KINDS[_n] = _k


def back(kind, v, d, e):
    """the value in the original units"""
    if kind == '1':
        return v
    if kind == 'l':
        return v + np.log(e).sum()
    if v.size == 0:
        return v
    u = {'x': d, 'z': e}
    if kind in ('x', 'z'):
        return v / (u[kind].reshape(-1, 1) if v.ndim == 2 and v.shape[1] == 1 and len(v) == len(u[kind]) else u[kind])
    if kind in ('rx', 'rz'):
        w = u[kind[1]]
        return v / (w[:, None] if v.ndim == 3 else w)
    if kind[0] == '-':
        w = u[kind[1]]
        return v * np.outer(w, w)
    if kind == 'xz':
        return v / np.outer(d, 1 / e)
    w = u[kind[0]]
    return v / np.outer(w, w)


def view(o, d, e, pre='', skip=()):
    r = {}
    for n, k in KINDS.items():
        if n in skip or not hasattr(o, n):
            continue
        try:
            v = np.array(getattr(o, n), dtype=float)
        except (TypeError, ValueError):
            continue
        if not np.isfinite(v).all():
            continue
        try:
            r[pre + n] = back(k, v, d, e)
        except ValueError:
            r[pre + n] = v          # a placeholder of another shape
    for i, f in enumerate(getattr(o, 'filters', [])):
        r.update(view(f, d, e, 'filters[%d].' % i))
    return r


class Scaled(engine.Model):
    rtol = 1e-8
    atol = 1e-12

    def __init__(self, name, e0, e1, d, e, depth):
        self.name, self.e0, self.b, self.m, self.d, self.e, self.depth = name, e0, e0.m, e1.m, d, e, depth
        self.ops = e0.m.ops
        self.cache = {}

    def init(self):
        return (self.b.init(), ())

    def see(self, c, d, e, op=None):
        if hasattr(c, 'o'):
            skip = ()
            if self.e0.kind in ('imm', 'mmae'):
                skip = ('z', 'y', 'K', 'S', 'SI')
            if self.e0.kind == 'seq':
                skip = ('mahalanobis', 'log_likelihood', 'z', 'S', 'SI')
            if self.e0.kind == 'info':
                skip = ('S', 'SI')          # an information matrix there
            return view(c.o, d, e, '', skip)
        r = zoo.estimate(self.e0, c)
        return {k: back({'x': 'x', 'P': 'xx'}[k], v, d, e) if v.ndim else v for k, v in r.items()}

    def ran(self, tr):
        if tr not in self.cache:
            one = np.ones(len(self.d)), np.ones(len(self.e))
            c = self.b.fresh()
            f = self.see(c, *one)
            for o in tr:
                self.b.do(c, o)
            r = self.see(c, *one)
            # attributes without a value yet are placeholders (identity, zero)
            self.cache[tr] = {k: v for k, v in r.items() if k.split('.')[-1] in ('x', 'P', 'P_inv', 'mu', 'p', 'sigmas') or not np.array_equal(v, f.get(k))}
        return self.cache[tr]

    def step(self, st, op):
        q = self.b.step(st[0], op)
        if q is None:
            return None
        tr = st[1] + (op,)
        return (q[0], tr), self.ran(tr)

    def fresh(self):
        c = self.m.fresh()
        c.const = False
        return c

    def do(self, c, op):
        self.m.do(c, op)
        return self.see(c, self.d, self.e)


SEQ = {1: [P_, ('s', 0, 1, 0, 'vec', None, None), ('s', 0, 1, 1, 'col', 1, 1), N_], 2: [P_, ('s', 0, 1, 0, 'vec', None, None), ('s', 1, 1, 1, 'col', 1, 1), ('s', 0, 2, 2, 'vec', None, None), U(0, 'col')]}


def build(sysf, shapes):
    old = zoo.Sys, zoo.NL, zoo.EKFNon, zoo.HInf
    zoo.Sys, zoo.NL, zoo.EKFNon, zoo.HInf = sysf, UNL, UEKF, UHInf
    try:
        return [zoo.Entry(Seq('seq-%dx%d' % q, sysf(q[0], q[1], var=21), SEQ[q[1]], 4), 'seq') for q in shapes] + [e for e in zoo.entries(shapes=shapes) + zoo.others() if e.kind not in ('gh', 'ghk', 'order', 'mem', 'lsq') and 'angle' not in e.name]
    finally:
        zoo.Sys, zoo.NL, zoo.EKFNon, zoo.HInf = old


T = 2.
SCALES = [('tiny', [T ** -40] * 3, [T ** -40] * 3), ('huge', [T ** 40] * 3, [T ** 40] * 3), ('state', [T ** 30] * 3, [1., 1., 1.]), ('meas', [1., 1., 1.], [T ** -30] * 3),
          ('mixed', [T ** -14, T ** 9, T ** 20], [T ** 12, T ** -11, 1.]), ('opposite', [T ** -60] * 3, [T ** 60] * 3),
          ('wide', [T ** -30, T ** 15, T ** 30], [T ** 25, T ** -25, 1.]), ('xwide', [T ** -40, T ** 40, 1.], [T ** 40, T ** -40, 1.])]


class PolyU(engine.Model):
    """polynomial filters: signal in units of a, time in units of t"""
    rtol = 1e-9
    atol = 1e-12

    def __init__(self, name, mk, a, t, depth):
        self.name, self.b, self.m, self.a, self.t, self.depth = name, mk(1., 1.), mk(a, t), a, t, depth
        self.ops = self.b.ops
        self.cache = {}

    def init(self):
        return (self.b.init(), ())

    def see(self, c, a, t):
        r = {}
        w = a * t ** -np.arange(3.)
        for n, k in (('x', None), ('dx', 1), ('ddx', 2), ('x_prediction', 0), ('dx_prediction', 1), ('ddx_prediction', 2), ('y', 0)):
            v = getattr(c.o, n, None)
            if v is None:
                continue
            v = np.array(v, dtype=float)
            if np.isfinite(v).all():
                r[n] = v / (w[:v.size].reshape(v.shape) if k is None and v.ndim else w[k or 0])
        if isinstance(self.b, LSQ):
            e, s = c.o.errors()
            if c.o.n > self.b.order + 1:
                r['errors'], r['std'] = A(e) / w[:self.b.order + 1], A(s) / w[:self.b.order + 1]
        return r

    def ran(self, tr):
        if tr not in self.cache:
            c = self.b.fresh()
            for o in tr:
                self.b.do(c, o)
            self.cache[tr] = self.see(c, 1., 1.)
        return self.cache[tr]

    def step(self, st, op):
        q = self.b.step(st[0], op)
        if q is None:
            return None
        tr = st[1] + (op,)
        return (q[0], tr), self.ran(tr)

    def fresh(self):
        return self.m.fresh()

    def do(self, c, op):
        self.m.do(c, op)
        return self.see(c, self.a, self.t)


def polys(th):
    out = []
    zs = [1.3, -2., .7]
    u = [('u', i, ()) for i in range(3)]
    for nm, a, t in (('tiny', T ** -40, 1.), ('huge', T ** 40, 1.), ('fast', 1., T ** -20), ('slow', T ** 10, T ** 20)):
        def x(n, a, t):
            return [v * a / t ** i for i, v in enumerate([1., .5, .2][:n])]
        Z = lambda a: [z * a for z in zs]
        out.append(PolyU('gh-' + nm, lambda a, t: Poly('gh', 'gh', 1, .5 * t, x(2, a, t), (.6, .3), u, 5, Z(a)), a, t, 5))
        out.append(PolyU('ghk-' + nm, lambda a, t: Poly('ghk', 'ghk', 2, .5 * t, x(3, a, t), (.6, .3, .1), u, 5, Z(a)), a, t, 5))
        for o in (0, 1, 2):
            out.append(PolyU('order%d-%s' % (o, nm), lambda a, t, o=o: Poly('order', 'order', o, .5 * t, x(o + 1, a, t), (.6, .3, .1)[:o + 1], u, 5, Z(a)), a, t, 5))
            out.append(PolyU('mem%d-%s' % (o, nm), lambda a, t, o=o: Poly('mem', 'mem', o, .5 * t, x(o + 1, a, t), (.6,), u, 5, Z(a)), a, t, 5))
            out.append(PolyU('lsq%d-%s' % (o, nm), lambda a, t, o=o: LSQ('lsq', o, .5 * t, .3 * a, Z(a), 5), a, t, 5))
    return out


# ------------------------------------------------------------------------ pure functions

def runs(s, how, seq, pr):
    """(kind, value) pairs computed by batch functions"""
    from filterpy import kalman
    zs = [None if k is None else s.z[k] for k in seq]
    n = len(zs)
    if how in ('kf', 'proc'):
        if how == 'kf':
            o = kalman.KalmanFilter(s.nx, s.nz)
            o.x, o.P, o.F, o.Q, o.H, o.R = s.x0, s.P0, s.F[0], s.Q[0], s.H[0], s.R[0]
            m, C, mp, Cp = o.batch_filter(zs, Fs=[s.F[k % 2] for k in range(n)], Rs=[s.R[k % 3] for k in range(n)])
            sm = o.rts_smoother(m, C, [s.F[k % 2] for k in range(n)])
        else:
            m, C, mp, Cp = kalman.batch_filter(s.x0, s.P0, zs, [s.F[k % 2] for k in range(n)], [s.Q[0]] * n, [s.H[0]] * n, [s.R[k % 3] for k in range(n)])
            sm = kalman.rts_smoother(m, C, [s.F[k % 2] for k in range(n)], [s.Q[0]] * n)
        r = [('rx', m), ('bb', C), ('rx', mp), ('bb', Cp), ('rx', sm[0]), ('bb', sm[1])]
        return r + [('Kb', sm[2])]
    P = {'merwe': lambda: kalman.MerweScaledSigmaPoints(s.nx, .5, 2., 1.), 'julier': lambda: kalman.JulierSigmaPoints(s.nx, 1.), 'simplex': lambda: kalman.SimplexSigmaPoints(s.nx)}[how]()
    o = kalman.UnscentedKalmanFilter(s.nx, s.nz, .5, hx=pr.h, fx=pr.f, points=P)
    o.x, o.P, o.Q, o.R = s.x0.copy(), s.P0, s.Q[0], s.R[0]
    m, C = o.batch_filter(zs)
    xs, Ps, Ks = o.rts_smoother(m, C)
    S = P.sigma_points(s.x1, s.P1)
    t = kalman.unscented_transform(S, P.Wm, P.Wc, s.Q[1])
    return [('rx', m), ('bb', C), ('rx', xs), ('bb', Ps), ('rx', S), ('x', t[0]), ('xx', t[1])]


def stat(s):
    from filterpy import stats
    x, P = stats.multivariate_multiply(s.x0, s.P0, s.x1, s.P1)
    r = [('x', x), ('xx', P), ('1', stats.mahalanobis(s.x0, s.x1, s.P0)), ('lx', stats.logpdf(s.x0, s.x1, s.P0)), ('ex', stats.multivariate_gaussian(s.x0, s.x1, s.P0)),
         ('1', stats.NEES(A([s.x0, s.x1]), A([s.x1, s.x1 * .5]), [s.P0, s.P1]))]
    r.append(('1', stats.gaussian(s.x0[0], s.x1[0], s.P0[0, 0]) * s.d[0] if isinstance(s, Units) else stats.gaussian(s.x0[0], s.x1[0], s.P0[0, 0])))
    r += [('s', stats.mul(s.x0[0], s.P0[0, 0], s.x1[0], s.P1[0, 0])), ('s', stats.add(s.x0[0], s.P0[0, 0], s.x1[0], s.P1[0, 0]))]
    r.append(('1', [stats.norm_cdf((min(s.x0[0], s.x1[0]), max(s.x0[0], s.x1[0])), s.x1[0], s.P0[0, 0])]))
    if s.nx == 2 and (not isinstance(s, Units) or s.d[0] == s.d[1]):
        a, w, h = stats.covariance_ellipse(s.P0, 2)
        r += [('1', math.tan(a)), ('e', [w, h])]
    return r


def orig(kind, v, d, e):
    v = np.array(v, dtype=float)
    if kind == 'bb':
        return v / np.outer(d, d)
    if kind == 'Kb':
        return v / np.outer(d, 1 / d)
    if kind == 'lx':
        return v + np.log(d).sum()
    if kind == 'ex':
        return v * np.prod(d)
    if kind == 's':
        return v / A([d[0], d[0] ** 2])
    if kind == 'e':
        return v / d[0]
    if kind == 'rx':
        return v / d
    return back(kind, v, d, e)


def pure(case):
    what, nx, nz, seq, sc = case
    b = Sys(nx, nz, var=21)
    D, E = [(q[1], q[2]) for q in SCALES if q[0] == sc][0]
    s = Units(b, D, E)
    f = (lambda s: stat(s)) if what == 'stats' else (lambda s: runs(s, what, seq, UNL(s)))
    p, q = f(b), f(s)
    one = np.ones(nx), np.ones(nz)
    for (k, v), (_, w) in zip(p, q):
        v, w = orig(k, v, *one), orig(k, w, s.d, s.e)
        if v.shape != w.shape or not engine.close(w, v, 1e-8, 1e-12):
            return ('%s result in other units (%s)' % (what, sc), v, w), None
    return None, np.concatenate([np.ravel(orig(k, v, *one)) for k, v in p])


def disc(case):
    from filterpy.common import Q_discrete_white_noise, Q_continuous_white_noise, van_loan_discretization, kinematic_state_transition
    from filterpy.common.discretization import linear_ode_discretation
    d, dt, t, a = case
    w = a * t ** -np.arange(float(d))
    for f, k in ((Q_discrete_white_noise, -2. * max(d - 1, 2)), (Q_continuous_white_noise, 1. - 2 * d)):
        p, q = f(d, dt, .7), f(d, dt * t, .7 * a * a * t ** k) / np.outer(w, w)
        if not engine.close(q, p, 1e-12, 1e-15):
            return ('%s in other units' % f.__name__, p, q), None
    if d < 4:
        p, q = kinematic_state_transition(d - 1, dt), kinematic_state_transition(d - 1, dt * t) / np.outer(w, 1 / w)
        if not engine.close(q, p, 1e-12, 1e-15):
            return ('kinematic_state_transition in other units', p, q), None
    return None, np.ravel(p)


def models(tier):
    th = tier == 'thorough'
    out = []
    shapes = ((1, 1), (2, 1), (2, 2), (3, 2)) if th else ((2, 1), (2, 2), (3, 2))
    base = build(Sys, shapes)
    for nm, D, E in SCALES:
        es = build(lambda *a, **k: Units(Sys(*a, **k), D, E), shapes)
        for e0, e1 in zip(base, es):
            assert e0.name == e1.name
            s = getattr(e1.m, 'sys', None) or getattr(e1.m, 's', None) or getattr(getattr(e1.m, 'pr', None), 's', None) or e1.m.w.sys
            dp = (5 if len(e0.m.ops) < 5 else 4) if th else 4 if '2x1' in e0.name and nm in ('tiny', 'mixed') else 3
            out.append(Scaled('%s-%s' % (e0.name, nm), e0, e1, s.d, s.e, dp))
    out += polys(th)
    seqs = [(0, 1, 2), (1, None, 2, 0), (None, 0, 3, None, 1)]
    for nm, _, _ in SCALES:
        out.append(engine.GridFn('batch-' + nm, [(w, nx, nz, q, nm) for w in ('kf', 'proc', 'merwe', 'julier', 'simplex') for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2)) for q in seqs], pure))
        out.append(engine.GridFn('stats-' + nm, [('stats', nx, 1, (), nm) for nx in (1, 2, 3)], pure))
    out.append(engine.GridFn('disc', [(d, dt, t, a) for d in (2, 3, 4) for dt in (.1, 1., 3.) for t in (T ** -20, T ** -10, T ** 10) for a in (T ** -30, 1., T ** 30)], disc))
    return out
