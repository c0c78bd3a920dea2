import numpy as np
from mc import zoo, engine, refs, lin, kfs, ekfnl, sp, enkf, bank
from mc.lin import P_, U, Pr, N_
from mc.refs import A, Sys
from mc.fls import FL
from mc.sp import Pp, Uu, NL

ID = 'P03'
LEVEL = 'model_checking'
BOUND = ('every operation sequence (predictions, updates with the own or overridden noise, measurement matrix, missing measurements, correlated and sequential updates, reassignments) to depth 3-4 (quick) / 4-5 (thorough) and every periodic history of '
         'period <= 2 up to 24-60 operations (300-600 without process noise), for the linear (object and procedural), square-root, information, extended, unscented, cubature, ensemble and fading-memory filters, the interacting-multiple-model estimator, the '
         'multiple-model bank and the fixed-lag smoother; prior covariance / measurement noise ratios 1 to 1e12, state components scaled up to 1e4 against each other; after every operation: finite, symmetric, positive semi-definite (relative to the '
         'scale of every component), and every measurement shrinks the covariance in every direction')
BOUND += '; larger problems (dim_x x dim_z 6x4, 5x7) at smaller depth'
ASSUMPTIONS = ['tolerance 1e-9 relative to the resulting covariance for the filters using the Joseph form or square roots, relative to the prior covariance for the others',
               'the covariance of a mixture (multiple models) may grow with a measurement; only definiteness is demanded there']


class XSys(Sys):
    """ratio: measurement noise relative to the prior; D: scales of the state components; q: factor of the process noise"""

    def __init__(self, nx, nz, nu=1, var=0, ratio=1., D=None, q=1., big=1., parallel=False):
        Sys.__init__(self, nx, nz, nu, var)
        if parallel:                        # nearly redundant sensors
            for h in self.H:
                for r in range(1, nz):
                    h[r] = h[0] + 1e-3 * h[r]
        D = np.diag(np.ones(nx) if D is None else A(D)[:nx])
        Di = np.linalg.inv(D)
        self.x0, self.x1 = D.dot(self.x0), D.dot(self.x1)
        self.P0, self.P1 = big * D.dot(self.P0).dot(D), big * D.dot(self.P1).dot(D)
        self.F = [D.dot(F).dot(Di) for F in self.F]
        self.H = [H.dot(Di) for H in self.H]
        self.Q = [q * D.dot(Q).dot(D) for Q in self.Q]
        self.B = [D.dot(B) for B in self.B]
        self.R = [ratio * R for R in self.R]
        self.sr *= ratio
        self.M = D.dot(self.M) * ratio ** .5 * (ratio if ratio < 1 else 1.)


def definite(P, ref, tol, hist=None, asym=None):
    """symmetric and positive semi-definite up to tol relative to the diagonal of ref; rounding errors made when the covariance was
    still large (hist: largest variances so far) may leave it unsymmetric by as much"""
    P, ref = A(P), A(ref)
    if not np.isfinite(P).all():
        return 'covariance is not finite: %r' % (P.tolist(),)
    d = np.diag(ref)
    if not (d > 0).all():
        return 'variances are not positive: %r' % (P.tolist(),)
    s = np.sqrt(d)
    C = P / np.outer(s, s)
    lim = asym = tol if asym is None else asym
    if hist is not None:
        h = np.sqrt(hist)
        lim = asym + 1e-13 * np.outer(h, h) / np.outer(s, s)
    if not (np.abs(C - C.T) <= lim).all():
        return 'covariance is not symmetric (%g): %r' % (np.abs(C - C.T).max(), P.tolist())
    e = np.linalg.eigvalsh(refs.sym(C)).min()
    if e < -tol:
        return 'covariance is not positive semi-definite (%g): %r' % (e, P.tolist())
    return None


def shrinks(P, Q, tol):
    """P (after) <= Q (before)"""
    P, Q = A(P), A(Q)
    s = np.sqrt(np.diag(Q))
    e = np.linalg.eigvalsh(refs.sym((Q - P) / np.outer(s, s))).min()
    return None if e > -tol else 'the measurement increased the uncertainty (%g): before %r after %r' % (e, Q.tolist(), P.tolist())


class Psd(engine.Model):
    def __init__(self, e, depth, tol=1e-9, strict=False, shrink=True, tag='', lasso=None, ops=None, names=('P', 'P_prior', 'P_post'), cycle=False, asym=None, less=None):
        self.asym, self.less = asym, less or tol
        # an update belongs to a preceding prediction (a correlation of the noises is that of one epoch)
        self.cycle = cycle or e.kind == 'enkf' or e.m.name.startswith('corr')
        self.e, self.b = e, e.m
        self.name, self.ops, self.depth, self.lasso = e.m.name + tag, list(ops or e.m.ops), depth, lasso
        self.tol, self.strict, self.shrink, self.names = tol, strict, shrink, names

    def lasso_ok(self, w):
        # predictions alone: an unstable system may legitimately leave the range of floating point numbers
        if self.cycle and any(zoo.role(o) == 'u' and zoo.role(w[i - 1]) != 'p' for i, o in enumerate(w)):
            return False
        return any(zoo.role(o) in ('u', 'pu') for o in w) and self.b.lasso_ok(list(w))

    def init(self):
        return None if self.strict else self.b.init(), False

    def step(self, st, op):
        st, ok = st
        if self.cycle and zoo.role(op) == 'u' and not ok:
            return None
        q = (None,) if self.strict else self.b.step(st, op)          # strict: every operation is always allowed
        if q is None:
            return None
        return (q[0], zoo.role(op) == 'p' or ok and zoo.role(op) != 'u'), {'covariance': lambda v: v, 'measurement': lambda v: v}

    def fresh(self):
        c = self.b.fresh()
        c.big = np.abs(np.diag(self.cov(c)))
        return c

    def cov(self, c):
        return A(c.o.P) if getattr(c, 'o', None) is not None else A(c.P)

    def do(self, c, op):
        before = self.cov(c)
        self.b.do(c, op)
        P = self.cov(c)
        r = {'covariance': None, 'measurement': None, '_fp': [P]}
        up = zoo.role(op) in ('u', 'pu')
        if op[0] == 'set' and op[1] == 'P':
            c.big = np.abs(np.diag(P))
        c.big = np.maximum(c.big, np.abs(np.diag(P)))
        hist = c.big if self.strict else None
        ref = P if self.strict else np.maximum(np.abs(before), np.abs(P))
        r['covariance'] = definite(P, ref, self.tol, hist, self.asym)
        if zoo.role(op) == 'u' and self.shrink and r['covariance'] is None:
            r['measurement'] = shrinks(P, before, self.less)
        if getattr(c, 'o', None) is not None:
            for n in self.names:
                v = getattr(c.o, n, None)
                if n != 'P' and v is not None and n == ('P_prior' if zoo.role(op) == 'p' else 'P_post') and zoo.role(op) in 'pu':
                    r['covariance'] = r['covariance'] or definite(v, ref, self.tol, hist, self.asym)
            if self.strict and zoo.role(op) == 'p' and self.e.kind == 'kf' and hasattr(c.o, 'get_update'):
                V = c.o.get_update(self.b.sys.z[1].reshape(-1, 1).copy())[1]
                r['covariance'] = r['covariance'] or definite(V, V, self.tol, hist, self.asym)
                if self.shrink:
                    r['covariance'] = r['covariance'] or shrinks(V, P, self.less)
            for f in getattr(c.o, 'filters', ()):
                r['covariance'] = r['covariance'] or definite(f.P, np.maximum(np.abs(A(f.P)), 1e-300), 1e-8)
        return r


zoo.ROLE.update({'part': 'u'})
DS = (None, (1e-4, 1., 1e3), (1e3, 1e-4, 1.))


def models(tier):
    th = tier == 'thorough'
    out = []
    D = 5 if th else 4
    # 1. the whole zoo under ordinary conditions
    for e in zoo.entries(var=23) + [x for x in zoo.others() if x.kind == 'fls']:
        if e.kind in ('hinf',) or e.m.name.startswith('steadyproc'):
            continue
        mix = e.kind in ('imm', 'mmae', 'fls')
        out.append(Psd(e, D if e.kind not in ('ukf', 'enkf', 'imm', 'mmae') or th and e.kind != 'enkf' else 3, 1e-8 if e.kind in ('enkf', 'ukf', 'ckf', 'info') else 1e-9, shrink=not mix, lasso=(2, 24) if not mix else None))
    # 2. extreme ratios and scales: Joseph / square-root forms
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (2, 3)):
        for ratio in (1., 1e-4, 1e-8, 1e-12):
            for di, Dg in enumerate(DS):
                for big in (1., 1e4, 'par'):
                    par = big == 'par'
                    if nx == 1 and Dg or par and nz == 1 or big == 1e4 and ratio < 1e-8:
                        continue
                    if not th:
                        if big == 1e4 and (ratio != 1e-8 or di) or di == 2 and (nx, nz) != (3, 2) or di and ratio == 1. or nx * nz > 5 and di == 0 and not par or (nx, nz) == (3, 3) and not (par and di < 2):
                            continue
                    big = 1. if par else big
                    s = XSys(nx, nz, var=3, ratio=ratio, D=Dg, big=big, parallel=par)
                    t = '%dx%d-%g-%d-%g%s' % (nx, nz, ratio, di, big, '-par' if par else '')
                    o = [P_, U(0), U(1, R=1), U(2, H=1), N_, ('set', 'P', 1)]
                    k = 4 if (nx, nz) in ((2, 1), (2, 2)) and di == 0 or th and nx < 3 else 3
                    ext = par or ratio < 1e-4 or big == 1e4
                    kw = dict(depth=k, tol=1e-9 if ratio > 1e-12 else 1e-8, strict=True, tag='-x', lasso=(2, 60) if th else (2, 24), asym=1e-2 if ext else 1e-8, less=1e-5 if ext else 1e-8, shrink=not (ratio < 1e-8 and (par or nx == 3) or big == 1e4 and ratio == 1e-8))
                    out.append(Psd(zoo.Entry(lin.KF('kf-' + t, s, o, 4), 'kf'), **kw))
                    out.append(Psd(zoo.Entry(kfs.SqrtKF('sqrt-' + t, s, [P_, U(0), U(1, R=1), N_, ('set', 'P', 1)], 4), 'sqrt'), **kw))
                    out.append(Psd(zoo.Entry(lin.Proc('proc-' + t, s, [P_, U(0), U(1, R=1), U(2, H=1), N_], 4), 'proc'), **kw))
                    out.append(Psd(zoo.Entry(kfs.EKFLin('ekf-' + t, s, [P_, U(0), U(1, R=1), ('pu', 2, None), N_], 4), 'ekf'), **kw))
                    out.append(Psd(zoo.Entry(kfs.Fading('fading-' + t, s, [P_, U(0), U(1, R=1), N_], 4, alpha=1.05), 'fading'), **kw))
                    out.append(Psd(zoo.Entry(FL('lag-' + t, s, 2, [('u', 0, None), ('u', 1, None)], 4), 'fls'), **dict(kw, shrink=False)))
                    if nz > 1 and not (par and ratio == 1e-12):
                        so = [P_] + [('s', i, 1, i, 'scalar', None, None) for i in range(nz)] + [('s', 0, nz, 0, 'col', None, None), ('s', 0, 1, 1, 'scalar', 1, None)]
                        out.append(Psd(zoo.Entry(kfs.Seq('seq-' + t, s, so, 4), 'kf'), **kw))
    # 2b. square-root filter: twice the dynamic range
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        for ratio, q, big in ((1e-12, 1e-20, 1e6), (1e-20, 1e-20, 1.), (1e-24, 1e-24, 1.), (1e-16, 1e-8, 1e8), (1., 1e-24, 1.), (1e-24, 1., 1.), (1e-8, 1e-24, 1e4)):
            for Dg in DS[:2] if nx > 1 else DS[:1]:
                s = XSys(nx, nz, var=6, ratio=ratio, q=q, big=big, D=Dg)
                n = 300 if th else 60
                out.append(Psd(zoo.Entry(kfs.SqrtKF('sqrt-%dx%d-%g-%g-%g-%d' % (nx, nz, ratio, q, big, Dg is None), s, [P_, U(0), U(1, R=1), U(2), N_], 4), 'sqrt'), D if nx < 3 else 4, 1e-8, True, lasso=(2, n), shrink=False))
    # 3. no process noise, long runs
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        for ratio in (1., 1e-6, 1e-12):
            for Fk in ('eye', 'cv'):
                s = XSys(nx, nz, var=4, ratio=ratio, q=0.)
                s.Q = [np.zeros((nx, nx))] * 4
                F = np.eye(nx)
                if Fk == 'cv':
                    F += np.diag(np.full(nx - 1, .1), 1)
                s.F = [F] * 4
                t = '%dx%d-%g-%s' % (nx, nz, ratio, Fk)
                n = 600 if th else 300
                out.append(Psd(zoo.Entry(lin.KF('noq-kf-' + t, s, [P_, U(0), U(1, R=1), N_], 4), 'kf'), D, 1e-9, True, lasso=(2, n), asym=1e-2 if ratio < 1 else None, less=1e-5 if ratio < 1 else None))
                if nz > 1:
                    out.append(Psd(zoo.Entry(kfs.Seq('noq-seq-' + t, s, [P_, ('s', 0, 1, 0, 'scalar', None, None), ('s', 1, 1, 0, 'scalar', None, None)], 4), 'kf'), D, 1e-9, True, lasso=(3 if th else 2, n), asym=1e-2 if ratio < 1 else None, less=1e-5 if ratio < 1 else None))
    # 4. moderate ratios: the other forms
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2)):
        for ratio, big in ((1e-3, 1.), (1., 1e4), (1e-2, 1e2), (1e-1, 'far')):
            s = XSys(nx, nz, var=5, ratio=ratio, big=1. if big == 'far' else big)
            if big == 'far':
                refs.far(s, 1e7)
            t = '%dx%d-%g-%s' % (nx, nz, ratio, big)
            for fam in (('merwe', .5, 2., 1.), ('merwe', .1, 2., 0.), ('julier', 1.), ('simplex',), ('ckf',)):
                e = zoo.Entry(sp.SP('%s-%s' % ('_'.join(map(str, fam)), t), sp.Problem(s), fam, [Pp(), Uu(0), Uu(1, 1), Pp(.2, .3), ('n',)], 4), 'ckf' if fam[0] == 'ckf' else 'ukf')
                out.append(Psd(e, D, 1e-8, tag='-m', lasso=(2, 30)))
            out.append(Psd(zoo.Entry(kfs.Info('info-' + t, s, [P_, U(0), U(1, R=1), N_], 4), 'info'), D, 1e-8, tag='-m', lasso=(2, 30)))
            out.append(Psd(zoo.Entry(zoo.Corr('corr-' + t, s, [P_, ('c', 0, 'col', None, None), ('c', 1, 'col', 1, None), U(2), ('cn',)], 4), 'kf'), D, 1e-9, tag='-m', lasso=(2, 30)))
            out.append(Psd(zoo.Entry(enkf.EN('enkf-' + t, sp.Problem(s), 5, [zoo.gen(k) for k in range(4)], [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('n',)], 4), 'enkf'), D, 1e-8, tag='-m', cycle=True))
    # 5. larger problems
    for e in zoo.entries(shapes=((6, 4), (5, 7)), var=23):
        if e.kind != 'hinf':
            out.append(Psd(e, 4 if th else 3, 1e-8 if e.kind in ('enkf', 'ukf', 'ckf', 'info') else 1e-9, lasso=(2, 8)))
    return out
