import itertools
import numpy as np
from mc import engine
from mc.refs import Sys
from mc.lin import KF, Proc, P_, U, Pr, N_
from mc.kfs import SqrtKF, Info, Fading
from mc.ekfnl import EKFNon
from mc.sp import SP, Problem, NL, Pp, Uu
from mc.enkf import EN
from mc.bank import IMM, MMAE
from mc.fls import FL
from mc.hinf import HI
from mc.poly import Poly
from mc.zoo import gen, M2

ID = 'P39'
LEVEL = 'model_checking'
BOUND = ('every filter class given only integer arrays (int64 and int32; states, covariances, models, noises, control inputs and measurements): every history of predictions, updates, missing measurements and '
         'reassignments up to depth 4 (quick) / 5-6 (thorough) against the real-valued reference models; the same with one kind of data (x, P, F, Q, H, R, B, u or z) real and all others integer, and one integer and all others real; both smoothers, batch filters, the unscented transform, sigma points, discretization, statistics and Gaussian arithmetic on integer '
         'arguments against the same call with floats; dim_x 1-3, dim_z 1-2')
ASSUMPTIONS = ['integers are small enough to be exact as floats']


class IntSys(Sys):
    """a system all of whose data are integers"""

    GROUPS = {'x': ('x0', 'x1'), 'P': ('P0', 'P1'), 'F': ('F',), 'Q': ('Q',), 'H': ('H',), 'R': ('R',), 'B': ('B',), 'u': ('u',), 'z': ('z',)}

    def __init__(self, nx, nz, nu=1, var=0, dtype=np.int64, real=''):
        Sys.__init__(self, nx, nz, nu=nu, var=var)
        r = np.random.RandomState(777 + 100 * nx + 10 * nz + var)
        I = lambda v: np.array(np.round(v)).astype(dtype)
        f = lambda lo, hi, *s: r.randint(lo, hi + 1, s)

        def spd(n, lo, k=1):
            a = f(-1, 1, n, n)
            return I((a.dot(a.T) + lo * np.eye(n)) * k)
        self.x0, self.x1 = I(f(1, 3, nx)), I(f(-3, 3, nx))
        self.P0, self.P1 = spd(nx, 2), spd(nx, 4)
        self.F = [I(np.eye(nx) + (np.triu(f(0, 1, nx, nx), 1) if k % 2 == 0 else np.tril(f(-1, 0, nx, nx), -1))) for k in range(4)]
        if nx > 1:
            self.F[0][0, 1] = 1
            self.F[1][1, 0] = -1
        else:
            self.F = [I(np.eye(1) * v) for v in (1, -1, 2, 1)]
        self.Q = [spd(nx, 1, k + 1) for k in range(4)]
        self.H = [I(f(0, 1, nz, nx) + np.eye(nz, nx)) for _ in range(4)]
        self.R = [spd(nz, 1, k + 1) for k in range(4)]
        self.B = [I(f(1, 2, nx, nu)) for _ in range(4)]
        self.u = [I(f(1, 3, nu)) for _ in range(4)]
        self.z = [I(f(-4, 4, nz) + (k % 2)) for k in range(8)]
        self.M = I(np.eye(nx, nz))
        self.sq, self.sr = 2, 3
        for k in real:                                  # these are not integers
            for n in self.GROUPS[k]:
                v = getattr(self, n)
                setattr(self, n, [1.25 * q for q in v] if isinstance(v, list) else 1.25 * v)


def ops(f):
    return [P_, Pr(u=0), U(0, f), U(1, f, R=1), N_]


def intz(cls):
    """the drivers' measurement forms convert to float: hand over the integers as they are"""
    class C(cls):
        def uargs(self, c, op):
            z, kw = cls.uargs(self, c, op)
            v = np.asarray(z)
            if self.sys.z[0].dtype.kind == 'f':
                return z, kw
            w = np.round(v).astype(self.sys.z[0].dtype)
            assert np.array_equal(v, w)
            return c.give(w, 'z'), kw

        def xs(self, v):
            v = np.asarray(v)
            return v.reshape(-1, 1).copy() if self.xform == 'col' else v.copy()

        def setval(self, a, i, how):
            s = self.sys
            return self.xs(s.x1 if i == 1 else s.x0) if a == 'x' else (s.P1 if i == 1 else s.P0) if a == 'P' else s.M * i if a == 'M' else getattr(s, a)[i]

        def setup(self, kf, c):
            cls.setup(self, kf, c)
            for n, v in (('x', self.xs(self.sys.x0)), ('P', self.sys.P0), ('F', self.sys.F[0]), ('Q', self.sys.Q[0]), ('H', self.sys.H[0]), ('R', self.sys.R[0])):
                setattr(kf, n, c.give(v.copy(), n))
    C.__name__ = 'Int' + cls.__name__
    return C


class Same(engine.Grid):
    """a pure function with integer arguments gives what it gives with the same numbers as floats"""

    def __init__(self, name, cases, call):
        self.name, self._cases, self.call = name, cases, call

    def cases(self):
        return self._cases

    def check(self, case):
        i = self.flat(self.call(case, np.int64))
        j = self.flat(self.call(case, np.int32))
        f = self.flat(self.call(case, float))
        for a in (i, j):
            if len(a) != len(f) or any(p.shape != q.shape for p, q in zip(a, f)):
                return ('shape with integer arguments', [q.shape for q in f], [q.shape for q in a]), None
            for p, q in zip(a, f):
                if not engine.close(p, q, 1e-10, 1e-12):
                    return ('value with integer arguments', q, p), None
        return None, np.concatenate([q.ravel() for q in f])

    def flat(self, r):
        if isinstance(r, (tuple, list)):
            return [q for v in r for q in self.flat(v)]
        return [] if r is None else [np.asarray(r, dtype=float)]


def T(v, d):
    """d: a type, or the name of a way to store real numbers"""
    return engine.lay(np.array(v).astype(float), d) if isinstance(d, str) else np.array(v).astype(d)


def pure():
    from filterpy import common, kalman, stats
    out = []

    def lin(case, d):
        nx, nz, xf, how, seq = case
        s = IntSys(nx, nz, var=3)
        f = lambda v: T(v, d)
        x = f(s.x0).reshape(-1, 1) if xf == 'col' else f(s.x0)
        zf = (lambda z: f(z).reshape(-1, 1)) if xf == 'col' else f
        if how in ('kf', 'kfrts', 'kfmats'):
            o = kalman.KalmanFilter(nx, nz)
            o.x, o.P, o.F, o.Q, o.H, o.R = x, f(s.P0), f(s.F[0]), f(s.Q[0]), f(s.H[0]), f(s.R[0])
            kw = {}
            n = len(seq)
            if how == 'kfmats':
                kw = dict(Fs=[f(s.F[k % 2]) for k in range(n)], Qs=[f(s.Q[k % 3]) for k in range(n)], Hs=[f(s.H[k % 2]) for k in range(n)], Rs=[f(s.R[k % 3]) for k in range(n)])
            m, C, mp, Cp = o.batch_filter([None if z is None else zf(s.z[z]) for z in seq], **kw)
            if how == 'kf':
                return m, C, mp, Cp
            # estimates that are themselves integers
            mi, Ci = f(np.round(np.asarray(m, float))), np.array([f(s.P0 if k % 2 else s.P1) for k in range(n)])
            return m, C, mp, Cp, o.rts_smoother(mi, Ci), kalman.rts_smoother(mi, Ci, [f(s.F[0])] * n, [f(s.Q[0])] * n)
        if how == 'proc':
            m, C, mp, Cp = kalman.batch_filter(x, f(s.P0), [None if z is None else zf(s.z[z]) for z in seq], [f(s.F[0])] * len(seq), [f(s.Q[0])] * len(seq), [f(s.H[0])] * len(seq), [f(s.R[0])] * len(seq))
            return m, C, mp, Cp
        if how == 'fls':
            o = kalman.FixedLagSmoother(nx, nz, N=2)
            o.x, o.P, o.F, o.Q, o.H, o.R, o.B = x, f(s.P0), f(s.F[0]), f(s.Q[0]), f(s.H[0]), f(s.R[0]), f(s.B[0])
            zs = [zf(s.z[z or 0]) for z in seq]
            us = [f(s.u[k % 3]).reshape(-1, 1) if xf == 'col' else f(s.u[k % 3]) for k in range(len(seq))]
            a = o.smooth_batch(zs, 2)
            b = o.smooth_batch(zs, 2, us)
            return a, b
        pr = NL(s)
        fam = how[1]
        if how[0] == 'ukf':
            P = {'merwe': lambda: kalman.MerweScaledSigmaPoints(nx, .5, 2, 1), 'julier': lambda: kalman.JulierSigmaPoints(nx, 1), 'simplex': lambda: kalman.SimplexSigmaPoints(nx)}[fam]()
            o = kalman.UnscentedKalmanFilter(nx, nz, 1, hx=pr.h, fx=pr.f, points=P)
            o.x, o.P, o.Q, o.R = f(s.x0), f(s.P0), f(s.Q[0]), f(s.R[0])
            zs = [f(s.z[z or 0]) for z in seq]
            m, C = o.batch_filter(zs)
            mi, Ci = f(np.round(np.asarray(m, float))), np.array([f(s.P0 if k % 2 else s.P1) for k in range(len(seq))])
            return m, C, o.rts_smoother(mi, Ci)
    seqs = [q for n in (1, 2, 3) for q in itertools.product((0, 1, None), repeat=n)]
    out.append(Same('batch', [(nx, nz, xf, how, q) for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2)) for xf in ('col', '1d') for how in ('kf', 'kfrts', 'kfmats', 'proc') for q in seqs], lin))
    out.append(Same('smoothers', [(nx, nz, 'col', how, q) for nx, nz in ((1, 1), (2, 1), (2, 2)) for how in ('fls', ('ukf', 'merwe'), ('ukf', 'julier'), ('ukf', 'simplex')) for q in seqs if None not in q], lin))

    def pts(case, d):
        n, var, fam, cov = case
        s = IntSys(n, 1, var=var)
        x, P = T(s.x0, d), T(s.P0, d)
        p = {'merwe': lambda: kalman.MerweScaledSigmaPoints(n, 1, 2, 1), 'julier': lambda: kalman.JulierSigmaPoints(n, 1), 'simplex': lambda: kalman.SimplexSigmaPoints(n)}[fam]()
        S = p.sigma_points(x, P)
        S2 = T(np.round(S), d)
        return S, p.Wm, p.Wc, kalman.unscented_transform(S2, p.Wm, p.Wc, T(s.Q[0], d) if cov else None)
    out.append(Same('sigma points', [(n, v, fam, c) for n in (1, 2, 3) for v in (1, 2) for fam in ('merwe', 'julier', 'simplex') for c in (0, 1)], pts))

    def gauss(case, d):
        k, n, var = case
        s = IntSys(n, 1, var=var)
        x, y, P, C = T(s.x0, d), T(s.x1, d), T(s.P0, d), T(s.P1, d)
        if k == 'mult':
            return stats.multivariate_multiply(x, P, y, C)
        if k == 'pdf':
            return stats.multivariate_gaussian(x, y, P), stats.logpdf(x, y, P), stats.mahalanobis(x, y, P)
        if k == 'nees':
            E = np.array([x, y, x])
            return stats.NEES(E, np.array([y, x, x]), [P, C, P])
        if k == 'ellipse':
            return stats.covariance_ellipse(T(IntSys(2, 1, var=var).P0, d), 2)
        if k == 'lf':
            Fm = T([[0, 1], [0, 0]], d)
            return common.van_loan_discretization(Fm, T([[0], [2]], d), 1)
        if k == 'rk':
            return [common.runge_kutta4(T(2, d).item(), T(1, d).item(), 1, lambda t, v: t * v + 1)]
        if k == 'outer':
            a, b = T([s.x0, s.x1, s.x0], d), T([s.x1, s.x1, s.x0], d)
            return common.outer_product_sum(a), common.outer_product_sum(a, b)
        if k == 'invd':
            return common.inv_diagonal(T(np.diag(np.arange(1, n + 2)), d))
        if k == 'rb':
            return [common.order_by_derivative(T(np.diag([2, 3]), d), 2, 2)]
    ks = ('mult', 'pdf', 'nees', 'ellipse', 'lf', 'rk', 'outer', 'invd', 'rb')
    out.append(Same('functions', [(k, n, v) for k in ks for n in (1, 2, 3) for v in (1, 2, 4)], gauss))

    def disc(case, d):
        from filterpy import discrete_bayes as db
        w, off, kern, mode = case
        pdf = T(w, d)
        return [db.predict(pdf, off, T(kern, d), mode=mode, cval=1)]
    ws = [q for n in (3, 4) for q in itertools.product((0, 1, 2), repeat=n) if sum(q)]
    out.append(Same('discrete', [(w, off, k, m) for w in ws for off in (-1, 0, 2) for k in ((1,), (0, 1, 0), (1, 2, 1)) for m in ('wrap', 'constant')], disc))

    def gh(case, d):
        from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
        from filterpy.memory import FadingMemoryFilter
        from filterpy.leastsq import LeastSquaresFilter
        k, dt, zs = case
        z = T(zs, d)
        if k == 'gh':
            o = GHFilter(T(2, d).item(), T(1, d).item(), dt, .6, .3)
            return o.batch_filter(z), [o.update(v) for v in z], o.VRF()
        if k == 'ghv':
            o = GHFilter(T([2, 3], d), T([1, -1], d), dt, .6, .3)
            return [o.update(T([v, v + 1], d)) for v in zs]
        if k == 'ghk':
            o = GHKFilter(T(2, d).item(), T(1, d).item(), T(1, d).item(), dt, .6, .3, .1)
            return o.batch_filter(z), [o.update(v) for v in z]
        r = []
        for order in (0, 1, 2):
            if k == 'order':
                o = GHFilterOrder(T([2, 1, 1][:order + 1], d), dt, order, .6, .3, .1)
            elif k == 'mem':
                o = FadingMemoryFilter(T([2, 1, 1][:order + 1], d) if order else 2, dt, order, .6)
            else:
                o = LeastSquaresFilter(dt, order, 1)
            for v in z:
                o.update(v)
                r.append(np.array(o.x, dtype=float).copy())
        return r
    out.append(Same('polynomial', [(k, dt, q) for k in ('gh', 'ghv', 'ghk', 'order', 'mem', 'lsq') for dt in (1, 2) for n in (1, 2, 3, 4) for q in itertools.product((-2, 0, 3), repeat=n)], gh))
    return out


def mixed(tier):
    """one kind of data real and everything else integer, and the reverse"""
    out = []
    G = 'xPFQHRBuz'
    for real in list(G) + [''.join(k for k in G if k != g) for g in G]:
        for nx, nz in ((1, 1), (2, 1), (2, 2)) if tier == 'thorough' else ((2, 1), (2, 2)):
            s = IntSys(nx, nz, nu=1, var=1, real=real)
            t = 'real_%s-%dx%d' % (real, nx, nz)
            st = [('set', a, 1) for a in 'xPB']
            for xf in ('col', '1d'):
                nm = t + '-' + xf
                out.append(intz(KF)('kf-' + nm, s, ops(xf) + [('set', 'x', 1)], 4, xf, ctl=True))
                out.append(intz(Proc)('proc-' + nm, s, [P_, Pr(u=0, B=1), U(0, xf), U(1, xf, R=1, H=1)], 3, xf, ctl=True))
                out.append(intz(EKFNon)('ekf-' + nm, s, [P_, Pr(u=0), ('u', 0, 'plain', None, False), ('pu', 2, 'plain', None)], 4, xf, ctl=True))
                out.append(IMM('imm-' + nm, s, [(0, 0, 1, 0, 0, 0, 0), (1, 1, 3, 0, 0, 1, 0)], [1, 2], M2, [('p', 0), ('u', 0, xf, None, None), ('u', 1, xf, None, None), ('n',)], 4, xform=xf, ctl=True))
                out.append(MMAE('mmae-' + nm, s, [(0, 0, 1, 0, 0, 0, 0), (1, 1, 3, 0, 0, 1, 0)], [.4, .6], None, [('p', 0), ('u', 0, xf, None, None), ('u', 1, xf, None, None), ('n',)], 4, xform=xf, ctl=True))
                for N in (1, 2):
                    out.append(FL('fls%d-%s' % (N, nm), s, N, [('u', 0, 0), ('u', 1, None), ('u', 2, 1), ('set', 'F', 1)], 4, xf, ctl=True))
            out.append(intz(SqrtKF)('sqrt-' + t, s, ops('col'), 4, 'col', ctl=True))
            out.append(intz(Fading)('fading-' + t, s, ops('col'), 4, 'col', alpha=2, ctl=True))
            out.append(intz(Info)('info-' + t, s, ops('col'), 4, 'col', ctl=True))
            out.append(HI('hinf-' + t, s, [('p', None), ('p', 0), ('u', 0), ('u', 1), ('set', 'V', 1)], 4, .01, True))
            out.append(EN('enkf-' + t, NL(s), 4, [gen(k) for k in range(4)], [('p', 0), ('u', 0, None, 2), ('u', 1, 1, 3)], 3))
            for fam in (('merwe', .5, 2., 1.), ('julier', 1), ('simplex',), ('ckf',)):
                out.append(SP('%s-%s' % (fam[0], t), NL(s), fam, [Pp(), Uu(0), Uu(1, 1), ('set', 'x', 1)], 4))
    return out


def models(tier):
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for dt in (np.int64, np.int32):
        for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2)):
            s = IntSys(nx, nz, nu=1, var=1, dtype=dt)
            t = '%s-%dx%d' % (np.dtype(dt).name, nx, nz)
            st = [('set', a, 1) for a in 'xPFQRH']
            for xf in ('col', '1d'):
                f = xf
                nm = t + '-' + xf
                out.append(intz(KF)('kf-' + nm, s, ops(f), d, xf, ctl=True, lasso=(2, 20)))
                out.append(intz(KF)('kf-set-' + nm, s, [P_, U(0, f)] + st, 4, xf))
                out.append(intz(KF)('kf-ovr-' + nm, s, [Pr(u=1, B=1, F=1, Q=1), Pr(Q='s'), U(0, f, R='s'), U(1, f, R=1, H=1)], d, xf, ctl=True))
                out.append(intz(KF)('kf-alpha-' + nm, s, [P_, U(0, f), ('set', 'alpha', 2)], d, xf, alpha=2))
                if nx < 3:
                    out.append(intz(Proc)('proc-' + nm, s, [P_, Pr(u=0, B=1), U(0, f), U(1, f, R=1, H=1), N_], d, xf, ctl=True))
                    iops = [('p', None), ('u', 0, f, None, None), ('u', 1, f, None, None), ('n',)]
                    out.append(IMM('imm-' + nm, s, [(0, 0, 1, 0, 0, 0, 0), (1, 1, 3, 0, 0, 1, 0)], [1, 2], M2, iops, d, xform=xf))
                    out.append(MMAE('mmae-' + nm, s, [(0, 0, 1, 0, 0, 0, 0), (1, 1, 3, 0, 0, 1, 0)], [.4, .6], None, iops, d, xform=xf))
                out.append(intz(EKFNon)('ekf-' + nm, s, [P_, Pr(u=0), ('u', 0, 'plain', None, False), ('u', 1, 'tuple', 1, False), ('pu', 2, 'plain', None), N_], d, xf, ctl=True))
            out.append(intz(SqrtKF)('sqrt-' + t, s, ops('col'), d, 'col', ctl=True))
            out.append(intz(Fading)('fading-' + t, s, ops('col'), d, 'col', alpha=2, ctl=True))
            out.append(intz(Info)('info-' + t, s, ops('col'), d, 'col', ctl=True))
            out.append(HI('hinf-' + t, s, [('p', None), ('p', 0), ('u', 0), ('u', 1), ('n',), ('set', 'V', 1)], d, .01, True))
            for fam in (('merwe', .5, 2., 1.), ('julier', 1), ('simplex',), ('ckf',)):
                for P in (Problem, NL):
                    out.append(SP('%s-%s-%s' % (fam[0], P.__name__, t), P(s), fam, [Pp(), Pp(1, .3), Uu(0), Uu(1, 1), ('n',), ('set', 'x', 1), ('set', 'P', 1)], 4))
            out.append(EN('enkf-' + t, NL(s), 4, [gen(k) for k in range(4)], [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('n',)], 4))
            if nx == 2:
                for N in (1, 3):
                    for xf in ('col', '1d'):
                        out.append(FL('fls%d-%s-%s' % (N, t, xf), s, N, [('u', 0, None), ('u', 1, 0), ('u', 2, 0)], d, xf, ctl=True))
    return out + mixed(tier) + pure()
