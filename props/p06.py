import copy
import itertools
import sys as _sys
import numpy as np
from mc import zoo, engine, refs, lin, sp
from mc.refs import A, Sys
from props.p29 import snap, properties

ID = 'P06'
LEVEL = 'model_checking'
BOUND = ('for every filter class: every interleaving (depth 4 quick / 5 thorough, plus every query on its own to depth 3 / 4) of operations (prediction, updates, missing measurements, steady-state, correlated and sequential operations, batch filtering and '
         'smoothing, reassignment) with its queries (hypothetical prediction with every combination of overrides, hypothetical update in every measurement form, residual, projected measurement, likelihoods, string representation, dimension test, '
         'variance reduction ratios, error bounds): all public attributes are compared bit by bit before and after every query, the answer with what a copy of the filter gives when it performs the operation, the continuation with the history without the '
         'queries; every array handed in and every estimate handed out is compared with its value at that time at the end of the history; all array-valued pure functions of the library for argument purity')
ASSUMPTIONS = ['residual_of and the projected measurement of the linear filter refer to the prior and are compared with the update directly after a prediction',
               'log_likelihood_of is documented for use after an update']


def public(o):
    """bit-exact image of everything public; derived properties are evaluated on a copy"""
    r = {k: snap(v) for k, v in vars(o).items() if not k.startswith('_')}
    t = copy.deepcopy(o)
    for n in properties(o):
        if n.startswith('_'):
            continue
        try:
            r['property ' + n] = snap(getattr(t, n))
        except Exception as e:
            r['property ' + n] = ('raises', type(e).__name__)
    if hasattr(o, 'filters'):
        for i, f in enumerate(o.filters):
            for k, v in public(f).items():
                r['filter %d %s' % (i, k)] = v
    return r


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return k
    return None


def near(nm, got, want, shape=True):
    if shape and np.shape(got) != np.shape(want):
        return '%s has shape %r, performing the operation gives %r' % (nm, np.shape(got), np.shape(want))
    if not engine.close(got, want, 1e-9, 1e-11):
        return '%s is %r, performing the operation gives %r' % (nm, A(got).tolist(), A(want).tolist())
    return None


# ------------------------------------------------------------------ queries: name -> f(model, ctx) -> error or None

def twin(c):
    return copy.deepcopy(c.o)


def us(m, i):
    return m.b.us(i) if hasattr(m.b, 'us') else m.s.u[i].reshape(-1, 1).copy()


def q_repr(m, c):
    if not isinstance(repr(c.o), str):
        return 'repr is not a string'


FEW = ((None, None, None, None), (1, None, 2, None), (1, 1, None, 's'))


def q_getpred(m, c):
    s = m.s
    ctl = m.b.ctl
    for u, B, F, Q in itertools.product((None, 1), (None, 1) if ctl else (None,), (None, 2), (None, 3, 's')):
        if u is not None and not ctl:
            continue
        if not m.single and (u, B, F, Q) not in FEW:
            continue
        kw = {}
        if u is not None:
            kw['u'] = c.give(us(m, u), 'u')
        if B is not None:
            kw['B'] = c.give(s.B[B].copy(), 'B argument')
        if F is not None:
            kw['F'] = c.give(s.F[F].copy(), 'F argument')
        if Q is not None:
            kw['Q'] = refs.scal(s.sq, Q) if Q in refs.SZ else c.give(s.Q[Q].copy(), 'Q argument')
        x, P = c.o.get_prediction(**kw)
        t = twin(c)
        t.predict(**copy.deepcopy(kw))
        e = near('get_prediction(%s) x' % sorted(kw), x, t.x) or near('get_prediction(%s) P' % sorted(kw), P, t.P)
        if e:
            return e
        c.hold(x, 'predicted x')
        c.hold(P, 'predicted P')


def q_getpred_simple(m, c):
    """fading memory / H infinity: u only"""
    for u in (None, 1) if m.b.ctl else (None,):
        a = () if u is None else (c.give(us(m, u), 'u'),)
        r = c.o.get_prediction(*a)
        t = twin(c)
        t.predict(*copy.deepcopy(a))
        x = r[0] if isinstance(r, tuple) else r
        e = near('get_prediction x', x, t.x)
        c.hold(x, 'predicted x')
        if isinstance(r, tuple):
            e = e or near('get_prediction P', r[1], t.P)
            c.hold(r[1], 'predicted P')
        if e:
            return e


def q_getupd(m, c):
    s = m.s
    fs = ['col', 'listcol'] + (['1d', 'list'] if m.b.xform == '1d' else []) + (['scalar', '0d', '1d', 'list'] if s.nz == 1 else [])
    if s.nx == 1 and s.nz == 1:
        fs.append('iscalar')
    for i, f in enumerate(fs if m.single else fs[-2:]):
        z = c.give(lin.zform(s.z[3 + i % 2], f), 'z')
        x, P = c.o.get_update(z)
        t = twin(c)
        t.update(copy.deepcopy(z))
        e = near('get_update(%s) x' % f, x, t.x) or near('get_update(%s) P' % f, P, t.P)
        if e:
            return e
        c.hold(x, 'updated x')
        c.hold(P, 'updated P')
    for a in ((), (None,)):
        x, P = c.o.get_update(*a)
        e = near('get_update(None) x', x, c.o.x) or near('get_update(None) P', P, c.o.P)
        if e:
            return e
        c.hold(x, 'updated x')
        c.hold(P, 'updated P')


def q_residual(m, c):
    s = m.s
    o = c.o
    z = s.z[3].copy() if getattr(m.b, 'xform', 'col') == '1d' else s.z[3].reshape(-1, 1).copy()
    for v in ([z, z.reshape(-1, 1).copy()] if m.e.kind == 'kf' else [z]):
        r = o.residual_of(c.give(v, 'z'))
        c.hold(r, 'residual')
        if m.e.kind == 'kf':
            if not c.pred:
                continue                         # the prior is unspecified before the first prediction
            if not engine.close(r, np.ravel(z) - A(o.H).dot(np.ravel(o.x_prior)), 1e-9, 1e-11):
                return 'residual_of is %r, z - H x_prior is %r' % (r, np.ravel(z) - A(o.H).dot(np.ravel(o.x_prior)))
            if not (np.shape(o.x) == np.shape(o.x_prior) and np.array_equal(o.x, o.x_prior)):
                continue
        t = twin(c)
        t.update(v.copy())
        e = near('residual_of', r, t.y)
        if e:
            return e


def q_project(m, c):
    s = m.s
    o = c.o
    H = A(o.H)
    for x in (o.x, s.x1.copy() if getattr(m.b, 'xform', 'col') == '1d' else s.x1.reshape(-1, 1).copy(), s.x0.copy()):
        r = o.measurement_of_state(c.give(x, 'state argument'))
        c.hold(r, 'projected measurement')
        if not engine.close(r, H.dot(np.ravel(x)), 1e-9, 1e-11):
            return 'measurement_of_state is %r, H x is %r' % (r, H.dot(np.ravel(x)))
        if x is o.x:
            t = twin(c)
            t.update(np.array(r, dtype=float))
            if np.abs(A(t.y)).max() > 1e-9 * max(1., np.abs(A(r)).max()):
                return 'updating with the projected measurement leaves the residual %r' % (t.y,)


def q_llof(m, c):
    o, s = c.o, m.s
    if o.log_likelihood_of(None) != np.log(_sys.float_info.min):
        return 'log_likelihood_of(None) is %r' % (o.log_likelihood_of(None),)
    if not c.upd:
        return
    z = s.z[3].copy()
    y = z - A(o.H).dot(np.ravel(o.x))
    r = o.log_likelihood_of(c.give(z if getattr(m.b, 'xform', 'col') == '1d' else z.reshape(-1, 1), 'z'))
    if not engine.close(r, refs.gauss_logpdf(y, o.S), 1e-8, 1e-9):
        return 'log_likelihood_of is %r, the density is %r' % (r, refs.gauss_logpdf(y, o.S))


def q_lik(names):
    def q(m, c):
        if not c.upd:
            return
        a = [float(getattr(c.o, n)) for n in names]
        for perm in list(itertools.permutations(range(len(names))))[::1 if m.single else 4]:
            t = twin(c)
            for i in perm:
                if float(getattr(t, names[i])) != a[i]:
                    return '%s depends on the order of reading' % names[i]
        t = twin(c)
        for i, n in enumerate(names):
            if float(getattr(c.o, n)) != a[i]:
                return '%s differs when read again' % n
    return q


def q_dims(m, c):
    kw = {k: c.give(getattr(m.s, k)[1].copy(), k + ' argument') for k in 'HRFQ'}
    if m.b.xform == 'col':               # (without z it supposes a column state)
        c.o.test_matrix_dimensions()
        c.o.test_matrix_dimensions(**kw)
    z = m.s.z[0]
    c.o.test_matrix_dimensions(z=c.give(z.copy() if m.b.xform == '1d' else z.reshape(-1, 1).copy(), 'z'), **kw)
    c.o.test_matrix_dimensions(z=c.give(z.copy() if m.b.xform == '1d' else z.reshape(-1, 1).copy(), 'z'))


def q_cross(m, c):
    o = c.o
    if not c.pred:
        return
    n, s = m.s.nx, m.s
    rs = np.random.RandomState(5)
    k = len(o.Wc)
    SF, SH = c.give(np.round(rs.normal(0, 1, (k, n)), 2), 'sigmas_f'), c.give(np.round(rs.normal(0, 1, (k, s.nz)), 2), 'sigmas_h')
    x, z = c.give(s.x0 * .3, 'x'), c.give(s.z[0].copy(), 'z')
    r = c.hold(o.cross_variance(x, z, SF, SH), 'cross variance')
    rx = o.residual_x or np.subtract
    rz = o.residual_z or np.subtract
    w = sum(o.Wc[i] * np.outer(rx(SF[i].copy(), x.copy()), rz(SH[i].copy(), z.copy())) for i in range(k))
    return near('cross_variance', r, w)


def q_gh(m, c):
    o = c.o
    a = [o.VRF(), o.VRF_prediction()]
    if hasattr(o, 'bias_error'):
        a.append(o.bias_error(.3))
    b = [o.VRF(), o.VRF_prediction()]
    if repr(a[:2]) != repr(b):
        return 'variance reduction ratios differ when asked again'


def q_errors(m, c):
    a = c.o.errors()
    for v in a:
        c.hold(v, 'errors()')
    b = c.o.errors()
    if not all(np.array_equal(A(p), A(q), equal_nan=True) for p, q in zip(a, b)):
        return 'errors() differs when asked again'


LIKE = ('log_likelihood', 'likelihood', 'mahalanobis')
QUERIES = {
    'kf': dict(repr=q_repr, prediction=q_getpred, update=q_getupd, residual=q_residual, project=q_project, likelihood_of=q_llof, likelihoods=q_lik(LIKE), dims=q_dims),
    'fading': dict(repr=q_repr, prediction=q_getpred_simple, residual=q_residual, project=q_project, likelihoods=q_lik(LIKE)),
    'sqrt': dict(repr=q_repr, residual=q_residual, project=q_project),
    'hinf': dict(repr=q_repr, prediction=q_getpred_simple, residual=q_residual, project=q_project),
    'info': dict(repr=q_repr, likelihoods=q_lik(('log_likelihood', 'likelihood'))),
    'ekf': dict(repr=q_repr, likelihoods=q_lik(LIKE)),
    'ukf': dict(repr=q_repr, likelihoods=q_lik(LIKE), cross=q_cross),
    'ckf': dict(repr=q_repr, likelihoods=q_lik(LIKE)),
    'enkf': dict(repr=q_repr), 'imm': dict(repr=q_repr), 'mmae': dict(repr=q_repr), 'fls': dict(repr=q_repr),
    'gh': dict(repr=q_repr, vrf=q_gh), 'ghk': dict(repr=q_repr, vrf=q_gh), 'order': dict(repr=q_repr), 'mem': dict(repr=q_repr),
    'lsq': dict(repr=q_repr, errors=q_errors), 'proc': {},
}


class Query(zoo.Diff):
    def __init__(self, e, depth, single, tag, lasso=None):
        q = sorted(QUERIES[e.kind])
        self.single = single
        ops = list(e.m.ops)
        ops += [('Q', n) for n in q] if single else ([('Q', tuple(q))] if q else [])
        zoo.Diff.__init__(self, e, depth, ops, '%s-%s' % (e.m.name, tag), lasso)
        b = e.m
        while not hasattr(b, 's') and not hasattr(b, 'sys') and not hasattr(b, 'pr'):
            if not hasattr(b, 'w'):
                break
            b = b.w
        self.s = getattr(b, 's', None) or getattr(b, 'sys', None) or getattr(getattr(b, 'pr', None), 's', None)
        self.b0 = b

    def skip(self, op):
        return op[0] == 'Q'

    def lasso_ok(self, w):
        return any(o[0] == 'Q' for o in w) and any(zoo.role(o) == 'u' for o in w if o[0] != 'Q') and self.b.lasso_ok([o for o in w if o[0] != 'Q'])

    def fresh(self):
        c = zoo.Diff.fresh(self)
        c.upd = c.pred = False
        return c

    def expectation(self, st, op, tr):
        e = zoo.Diff.expectation(self, st, op, tr)
        if op[0] == 'Q':
            e['query'] = lambda v: v
        return e

    def do(self, c, op):
        if op[0] != 'Q':
            if op[0] == 'pu':
                c.upd = True
            r = zoo.Diff.do(self, c, op)
            k = zoo.role(op)
            if k in ('u', 'pu') and op[0] not in ('su', 's'):
                c.upd = True
            elif op[0] in ('su', 'sn', 's'):
                c.upd = False                    # S is not that of the residual
            if k in 'p':
                c.pred = True
            return r
        bad = None
        # the filter's own H for the EKF is whatever the last update used: only generic queries there
        a = public(c.o)
        for n in ((op[1],) if isinstance(op[1], str) else op[1]):
            bad = bad or QUERIES[self.e.kind][n](self, c)
            b = public(c.o)
            d = diff(a, b)
            if d:
                bad = bad or 'query %r changed %s' % (n, d)
            a = b
        r = self.observe(c)
        r['reduced history raises'] = r['finite'] = 0
        r['query'] = bad
        return r


# ------------------------------------------------------------------ batch and smoothing as operations

class Batch(engine.Model):
    """adds ('b', z pattern, update first) and ('r',): their inputs are the caller's, their results are kept"""

    def __init__(self, m, kind):
        self.w, self.name, self.depth, self.kind = m, m.name + '-batch', m.depth, kind
        self.ctl, self.xform = getattr(m, 'ctl', False), getattr(m, 'xform', 'col')
        self.s = getattr(m, 's', None) or getattr(m, 'sys', None) or m.pr.s
        pats = [((0, 1, None), False)] + ([((2, None, 0), True)] if kind != 'ukf' else [])
        self.ops = list(m.ops)[:3] + [('b',) + p for p in pats] + ([('r',)] if kind in ('kf', 'ukf') else [])

    def us(self, i):
        return self.w.us(i) if hasattr(self.w, 'us') else self.s.u[i].reshape(-1, 1).copy()

    def lasso_ok(self, w):
        return self.w.lasso_ok([o for o in w if o[0] not in 'br'])

    def init(self):
        return (self.w.init(), False)

    def step(self, st, op):
        bs, ran = st
        if op[0] == 'r':
            return (st, {}) if ran else None
        if op[0] == 'b':
            P = [o for o in self.w.ops if zoo.role(o) == 'p'][0]
            for z in op[1]:
                for k in 'up' if op[2] else 'pu':
                    o = P if k == 'p' else ('n',) if z is None else [v for v in self.w.ops if zoo.role(v) == 'u'][0]
                    q = self.w.step(bs, o)
                    if q is None:
                        return None
                    bs = q[0]
            return (bs, True), {}
        q = self.w.step(bs, op)
        return None if q is None else ((q[0], ran), {})

    def fresh(self):
        return self.w.fresh()

    def do(self, c, op):
        s, o = self.s, c.o
        if op[0] == 'b':
            flat = self.kind == 'ukf' or self.xform == '1d'
            zs = c.give([None if z is None else (s.z[z].copy() if flat else s.z[z].reshape(-1, 1).copy()) for z in op[1]], 'zs')
            n = len(zs)
            if self.kind == 'kf':
                L = lambda nm: c.give([getattr(s, nm)[i % 4].copy() for i in range(n)], nm + 's')
                kw = dict(Fs=L('F'), Qs=L('Q'), Hs=L('H'), Rs=L('R'))
                if self.ctl:
                    kw.update(Bs=L('B'), us=c.give([self.us(i) for i in range(n)], 'us'))
                r = o.batch_filter(zs, update_first=op[2], **kw)
                c.FQ = kw['Fs'], kw['Qs']
            elif self.kind == 'ukf':
                r = o.batch_filter(zs, Rs=c.give([s.R[i].copy() for i in range(n)], 'Rs'))
            elif self.kind == 'fading':
                r = o.batch_filter(zs, Rs=c.give([s.R[i].copy() for i in range(n)], 'Rs'), update_first=op[2])
            else:
                r = o.batch_filter(zs, update_first=op[2])
            for a in r:
                c.hold(a, 'batch result')
            c.last = r
        elif op[0] == 'r':
            if self.kind == 'kf':
                r = o.rts_smoother(c.last[0], c.last[1], Fs=c.FQ[0], Qs=c.FQ[1])
            else:
                r = o.rts_smoother(c.last[0], c.last[1], Qs=c.give([self.s.Q[i].copy() for i in range(len(c.last[0]))], 'Qs'))
            for a in r:
                c.hold(a, 'smoother result')
        else:
            self.w.do(c, op)
        return {}


zoo.ROLE.update({'b': 'u', 'r': 'q'})


# ------------------------------------------------------------------ argument purity of functions

def pure_cases(shape):
    nx, nz = shape
    s = Sys(nx, nz, nu=1, var=61)
    rs = np.random.RandomState(8)
    col = lambda v: v.reshape(-1, 1)
    F, Q, H, R, B, P = s.F[0], s.Q[0], s.H[0], s.R[0], s.B[0], s.P0
    pts = np.round(rs.normal(0, 1, (2 * nx + 1, nx)), 2)
    w = np.full(2 * nx + 1, 1. / (2 * nx + 1))
    n = 5
    Xs, Ps = np.round(rs.normal(0, 1, (n, nx)), 2), np.array([s.P0 + .1 * i * np.eye(nx) for i in range(n)])
    Fs, Qs, Hs, Rs = [np.array([getattr(s, k)[i % 4] for i in range(n)]) for k in 'FQHR']
    zs, us, Bs = np.array([s.z[i] for i in range(n)]), np.array([s.u[i % 4] for i in range(n)]), np.array([s.B[i % 4] for i in range(n)])
    K = .2 * s.H[1].T
    pdf = np.array([.1, .4, .3, .15, .05])
    C = {}
    for f, x, z, u in (('col', col(s.x0), col(s.z[0]), col(s.u[0])), ('1d', s.x0, s.z[0], s.u[0])):
        C['predict ' + f] = ('kalman.predict', (x, P), dict(F=F, Q=Q, u=u, B=B, alpha=1.1))
        C['update ' + f] = ('kalman.update', (x, P, z, R), dict(H=H, return_all=True))
        C['update-none ' + f] = ('kalman.update', (x, P, None, R), dict(H=H))
        C['predict_steadystate ' + f] = ('kalman.predict_steadystate', (x,), dict(F=F, u=u, B=B))
        C['update_steadystate ' + f] = ('kalman.update_steadystate', (x, z, K), dict(H=H))
        C['batch ' + f] = ('kalman.batch_filter', (x, P, zs if f == '1d' else zs[:, :, None], Fs, Qs, Hs, Rs),
                           dict(Bs=Bs, us=us if f == '1d' else us[:, :, None]))
        C['batch-first ' + f] = ('kalman.batch_filter', (x, P, [None if i == 2 else (v if f == '1d' else col(v)) for i, v in enumerate(zs)], list(Fs), list(Qs), list(Hs), list(Rs)), dict(update_first=True))
        C['rts ' + f] = ('kalman.rts_smoother', (Xs if f == '1d' else Xs[:, :, None], Ps, Fs, Qs), {})
        C['stats.log_likelihood ' + f] = ('stats.log_likelihood', (s.z[0], s.x0, P, H, R), {})
    C['ut'] = ('kalman.unscented_transform', (pts, w, w, Q), {})
    C['ut-fns'] = ('kalman.unscented_transform', (pts, w, w, Q, lambda S, W: np.dot(W, S), lambda a, b: a - b), {})
    for nm, fam in (('merwe', ('merwe', .5, 2., 1.)), ('julier', ('julier', 1.)), ('simplex', ('simplex',))):
        C[nm] = (sp.make_points_(fam, nx).sigma_points, (s.x0, P), {})
    C['spherical'] = ('kalman.spherical_radial_sigmas', (col(s.x0), P), {})
    C['ckf_transform'] = ('kalman.ckf_transform', (pts[:2 * nx], Q), {})
    C['van_loan'] = ('common.van_loan_discretization', (F, B, .3), {})
    C['ode'] = ('common.linear_ode_discretation', (F, B, np.eye(1) * .3), dict(dt=.3))
    C['outer'] = ('common.outer_product_sum', (pts,), {})
    C['outer2'] = ('common.outer_product_sum', (pts, pts + 1.), {})
    C['inv_diagonal'] = ('common.inv_diagonal', (np.diag(np.arange(1., nx + 1)),), {})
    C['reshape_z'] = ('common.reshape_z', (s.z[0], nz, 2), {})
    C['reshape_z1'] = ('common.reshape_z', (col(s.z[0]), nz, 1), {})
    C['pretty'] = ('common.pretty_str', ('P', P), {})
    C['order'] = ('common.order_by_derivative', (np.arange(1., 10.).reshape(3, 3), 3, 2), {})
    C['rk4'] = ('common.runge_kutta4', (s.x0, .1, .2, lambda y, x: .3 * y + x), {})
    C['mahalanobis'] = ('stats.mahalanobis', (s.x0, s.x1, P), {})
    C['likelihood'] = ('stats.likelihood', (s.z[0], s.x0, P, H, R), {})
    C['logpdf'] = ('stats.logpdf', (s.x0, s.x1, P), {})
    C['gaussian'] = ('stats.gaussian', (s.x0, .3, 1.2), {})
    C['mvg'] = ('stats.multivariate_gaussian', (s.x0, s.x1, P), {})
    C['mvm'] = ('stats.multivariate_multiply', (s.x0, P, s.x1, s.P1), {})
    C['nees'] = ('stats.NEES', (Xs, Xs + .3, Ps), {})
    if nx == 2:
        C['ellipse'] = ('stats.covariance_ellipse', (P,), {})
    C['db.update'] = ('discrete_bayes.update', (pdf[::-1].copy() * 2, pdf), {})
    C['db.predict'] = ('discrete_bayes.predict', (pdf, 1, np.array([.1, .8, .1])), {})
    C['db.predict-const'] = ('discrete_bayes.predict', (pdf, -2, np.array([.1, .8, .1]), 'constant', .1), {})
    for r in ('residual', 'stratified', 'systematic', 'multinomial'):
        C['resample ' + r] = ('monte_carlo.%s_resample' % r, (pdf,), {})
    return C


SH = ((1, 1), (2, 1), (2, 2), (3, 2))


def lookup(name):
    import importlib
    mod, f = name.rsplit('.', 1)
    return getattr(importlib.import_module('filterpy.' + mod), f)


LAYOUT = {'C': np.ascontiguousarray, 'F': np.asfortranarray, 'strided': lambda a: np.repeat(a, 2, axis=0)[::2], 'shared': lambda a: a}


def pure_check(case):
    from mc import rng
    shape, name, lay, rep = case
    f, a, kw = pure_cases(shape)[name]
    f = lookup(f) if isinstance(f, str) else f
    c = engine.Ctx()
    memo = {}

    def prep(v, nm):
        if isinstance(v, np.ndarray):
            if lay == 'shared':
                k = (v.shape, v.tobytes())           # equal arguments are one and the same array
                memo.setdefault(k, v.copy())
                return c.give(memo[k], nm)
            return c.give(LAYOUT[lay](v.copy()), nm)
        if isinstance(v, list):
            return c.give([None if e is None else LAYOUT[lay](e.copy()) for e in v], nm)
        return v
    a = [prep(v, 'argument %d' % i) for i, v in enumerate(a)]
    kw = {k: prep(v, 'argument ' + k) for k, v in kw.items()}
    out = []
    for i in range(rep):
        rng.install(rng.Script(uniforms=[.37, .61], normals=lambda i, j: 0.))
        try:
            r = f(*a, **kw)
        finally:
            rng.install(None)
        rs = r if isinstance(r, tuple) else (r,)
        for v in rs:
            c.hold(v, 'earlier result')
        out.append(rs)
        e = c.frames()
        if e:
            return e, None
    for rs in out[1:]:
        for p, q in zip(out[0], rs):
            if snap(p) != snap(q):
                return ('second call gives another result', p, q), None
    return None, '%s %s %r' % (name, lay, snap(out[0]))


def models(tier):
    th = tier == 'thorough'
    out = []
    sh = ((1, 1), (2, 1), (2, 2), (3, 2))
    for e in zoo.entries(sh) + zoo.others():
        if e.kind == 'proc':
            out.append(Query(e, 5 if th else 4, False, 'frames'))
            continue
        out.append(Query(e, 5 if th else 4 if e.m.name.split('-')[1:2] == ['2x2'] else 3, False, 'all', (2, 10) if not th else (3, 18)))
        if th or e.m.name.split('-')[1:2] not in (['3x2'], ['1x1']):
            out.append(Query(e, 4 if th else 3, True, 'each'))
    for e in zoo.entries(((2, 1), (2, 2))):
        if e.name.startswith(('kf', 'ukf', 'fading', 'hinf')):
            k = e.kind
            out.append(Query(zoo.Entry(Batch(e.m, k), k, e.est), 5 if th else 4, False, 'frames'))
    for s in SH:
        out.append(engine.GridFn('pure-%dx%d' % s, [(s, n, lay, rep) for n in pure_cases(s) for lay in ('C', 'F', 'strided', 'shared') for rep in (2,)], pure_check))
    return out
