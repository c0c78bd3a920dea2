import itertools
import math
import sys as _sys
import numpy as np
from mc import zoo, engine, refs, lin, kfs, ekfnl, sp, bank
from mc.lin import P_, U, Pr, N_
from mc.refs import A, Sys
from mc.sp import Pp, Uu, NL, Angle
from props.p42 import Units
from props.p06 import public, diff, Batch

ID = 'P11'
LEVEL = 'model_checking'
BOUND = ('for the linear (incl. steady-state, correlated and batch operations), extended (incl. predict_update), unscented (3 point schemes, circular measurements), cubature, fading-memory, information and interacting-multiple-model filters: '
         'every interleaving of predictions, updates (ordinary, overridden noise or model, outliers that underflow the likelihood), missing measurements and reassignments with reads of the log-likelihood, the likelihood, the Mahalanobis distance and the '
         'string representation to depth 4 (quick) / 6 (thorough), and three prediction-update cycles with every choice and order of reads in the first two; dim_x 1-3, dim_z 1-3; the values are compared with the Gaussian density of an independently computed residual under an independently computed system uncertainty; all '
         'public attributes are compared bit by bit around every read; likelihood returned by the procedural update for all shapes, forms and overrides')
ASSUMPTIONS = ['values before the first measurement and after a missing measurement are unspecified; reads at those moments must still not disturb later values',
               'a steady-state update does not recompute the system uncertainty: the one of the last full update counts']

TINY = _sys.float_info.min
READS = [('L',), ('l',), ('m',), ('r',)]
NAME = {'L': 'log_likelihood', 'l': 'likelihood', 'm': 'mahalanobis'}


class OutSys(Sys):
    """measurement 5: a moderate outlier, 6: one whose likelihood underflows, 7 (sigma-point problems use it as offset) unchanged"""

    def __init__(self, *a, **k):
        Sys.__init__(self, *a, **k)
        self.z[5] = self.z[5] + 9. * self.scale
        self.z[6] = np.round(self.z[6] + 400. * self.scale)


def expected(y, S):
    ll = refs.gauss_logpdf(y, S)
    lk = math.exp(ll) if ll > -745.2 else 0.
    def like(v):
        v = float(v)
        if not v > 0:
            return 'likelihood is %r (must be positive)' % v
        if lk > 1e-290:
            return None if abs(v - lk) <= 1e-6 * lk * max(1., abs(ll)) else 'likelihood is %r, should be %r' % (v, lk)
        return None if v <= max(TINY, lk * 1.001) * (1 + 1e-9) else 'likelihood is %r, should be %r' % (v, max(lk, TINY))
    return {'log_likelihood': ll, 'likelihood': like, 'mahalanobis': refs.maha(y, S)}


class Like(engine.Model):
    rtol = 1e-6
    atol = 1e-8

    def __init__(self, e, depth, ops=None, reads=READS, tag='', lasso=None):
        self.e, self.b = e, e.m
        self.name = e.m.name + tag
        self.ops = list(ops or e.m.ops) + [r for r in reads if e.kind not in ('info', 'imm') or r[0] != 'm' and (e.kind != 'imm' or r[0] in 'lr')]
        self.depth, self.lasso = depth, lasso

    def lasso_ok(self, w):
        b = [o for o in w if o[0] not in 'LlmrQ']
        return len(b) < len(w) and any(zoo.role(o) in ('u', 'pu') for o in b) and self.b.lasso_ok(b)

    def extra(self):
        """three cycles with every choice and order of reads in the first and the second one"""
        rd = [o for o in self.ops if o[0] in NAME]
        ps = [o for o in self.b.ops if zoo.role(o) == 'p'][:1]
        us = [o for o in self.b.ops if zoo.role(o) in ('u', 'pu')]
        if len(us) < 2:
            return
        sets = [q for k in range(len(rd) + 1) for q in itertools.permutations(rd, k)]
        end = tuple(rd[::-1])
        for j, (r1, r2) in enumerate(itertools.product(sets, sets)):
            yield (*ps, us[0], *r1, *ps, us[1], *r2, *ps, us[j % len(us)], *end)

    # state: (base state, y, S, last op gave a valid pair)
    def init(self):
        return self.b.init(), None, None, None

    def step(self, st, op):
        bs, y, S, ok = st
        if op[0] in NAME or op[0] == 'r':
            e = {'pure': lambda v: v}
            if op[0] in NAME and ok == 'own':
                e['own ' + NAME[op[0]]] = lambda v: v
            elif op[0] in NAME and ok == 'll' and op[0] != 'm':
                e[NAME[op[0]]] = y[NAME[op[0]]]
            elif op[0] in NAME and ok:
                e[NAME[op[0]]] = expected(y, S)[NAME[op[0]]]
            return st, e
        q = self.b.step(bs, op)
        if q is None:
            return None
        r = zoo.role(op) if op[0] != 'b' else 'b'
        x = q[1]
        if r in ('u', 'pu'):
            if self.e.kind == 'info':
                ll = x['log_likelihood']
                y, S, ok = {'log_likelihood': ll, 'likelihood': x['likelihood']}, None, 'll'
            elif self.e.kind == 'imm':
                y, S, ok = {'likelihood': x['likelihood']}, None, 'll'
            elif 'y' in x:
                y = A(x['y']).ravel()
                if 'S' in x:
                    S = A(x['S'])
                ok = S is not None
            else:
                y, S, ok = None, None, False
        elif r == 'b':
            y, S, ok = None, None, 'own'
        elif r == 'n':
            ok = False
        return (q[0], y, S, ok), {}

    def fresh(self):
        c = self.b.fresh()
        c.own = None
        return c

    def do(self, c, op):
        o = c.o
        if op[0] in NAME or op[0] == 'r':
            a = public(o)
            r = {}
            if op[0] == 'r':
                repr(o)
            else:
                n = NAME[op[0]]
                v = getattr(o, n)
                r[n] = v
                if c.own is not None and c.own[1].any():
                    w = expected(*c.own)[n]
                    r['own ' + n] = w(v) if callable(w) else None if engine.close(v, w, 1e-6, 1e-8) else '%s is %r, should be %r' % (n, v, w)
                else:
                    r['own ' + n] = None
            d = diff(a, public(o))
            r['pure'] = None if d is None else 'reading %r changed %s' % (op[0], d)
            return r
        self.b.do(c, op)
        if op[0] == 'b':
            c.own = (A(o.y).copy(), A(o.S).copy())
        r = {'_fp': [v for v in (getattr(o, n, None) for n in ('x', 'P', 'y', 'S')) if isinstance(v, np.ndarray) and v.dtype.kind == 'f']}
        return r


class LastNone(Batch):
    """batches end with a measurement"""

    def __init__(self, m, kind):
        Batch.__init__(self, m, kind)
        self.ops = list(m.ops)[:3] + [('b', (0, None, 1), False)] + ([('b', (2, None, 0), True)] if kind != 'ukf' else [])


def proc(case):
    from filterpy.kalman import update
    (nx, nz), xf, zf, z, R, H = case
    s = OutSys(nx, nz, var=11)
    x = s.x0.reshape(-1, 1) if xf == 'col' else s.x0
    zz = lin.zform(s.z[z], zf)
    v = lin.zval(s.z[z], zf)
    r = update(x, s.P0, zz, s.R[R], s.H[H], return_all=True)
    y = v - s.H[H].dot(s.x0)
    S = s.H[H].dot(s.P0).dot(s.H[H].T) + s.R[R]
    want = refs.gauss_logpdf(y, S)
    if not engine.close(r[5], want, 1e-7, 1e-9):
        return ('log-likelihood of update%r' % (case,), want, r[5]), None
    return None, [want]


def proc_cases():
    for sh in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
        for xf in ('col', '1d'):
            fs = ['col', 'listcol'] + (['1d', 'list'] if xf == '1d' else []) + (['scalar', '0d', '1d', 'list'] if sh[1] == 1 else [])
            for f in fs:
                for z in range(7):
                    for R in (0, 2):
                        for H in (0, 1):
                            yield sh, xf, f, z, R, H


def models(tier):
    th = tier == 'thorough'
    out = []
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3)):
        s = OutSys(nx, nz, nu=1, var=11)
        t = '%dx%d' % (nx, nz)
        D = 6 if th and nx < 3 else 5 if th else 4 if (nx, nz) == (2, 2) else 3
        # the measurement-noise ratio is moderate so that outlier 6 underflows
        for xf in ('col', '1d'):
            f = xf
            base = [P_, U(0, f), U(6, f, R=1), N_]
            out.append(Like(zoo.Entry(lin.KF('kf-%s-%s' % (t, xf), s, base, 4, xf), 'kf'), D))
            out.append(Like(zoo.Entry(lin.KF('kf-set-%s-%s' % (t, xf), s, [P_, U(5, f, H=1), ('set', 'R', 1), ('set', 'H', 1), ('set', 'P', 1), ('set', 'x', 1)], 4, xf), 'kf'), min(D, 4), reads=READS[:3]))
            out.append(Like(zoo.Entry(kfs.Steady('steady-%s-%s' % (t, xf), s, [('sp', None, None), ('su', 6, f), ('su', 1, f), ('sn',), U(1, f)], 4, xf), 'kf'), D, reads=READS[:3]))
            out.append(Like(zoo.Entry(zoo.Corr('corr-%s-%s' % (t, xf), s, [P_, ('c', 0, f, None, None), ('c', 5, f, 1, None), ('cn',)], 4, xf), 'kf'), D, reads=READS[:3]))
            out.append(Like(zoo.Entry(LastNone(lin.KF('kfb-%s-%s' % (t, xf), s, base, 4, xf, ctl=True), 'kf'), 'kf'), min(D, 4), reads=READS[:3]))
            out.append(Like(zoo.Entry(ekfnl.EKFNon('ekf-%s-%s' % (t, xf), s, [P_, ('u', 0, 'plain', None, False), ('u', 6, 'tuple', 1, False), ('u', 1, 'plain', None, True), ('pu', 2, 'plain', None), N_], 4, xf), 'ekf'), min(D, 4), reads=READS[:3]) if nz < 4 else None)
        out.append(Like(zoo.Entry(kfs.Fading('fading-' + t, s, [P_, U(0), U(6, 'col', R=1), N_], 4, 'col', alpha=1.1), 'fading'), D))
        out.append(Like(zoo.Entry(kfs.Info('info-' + t, s, [P_, U(0), U(5, 'col', R=1), N_], 4, 'col'), 'info'), D, reads=[('L',), ('l',), ('r',)]))
        for fam in (('merwe', .5, 2., 1.), ('julier', 1.), ('simplex',), ('ckf',)):
            k = 'ckf' if fam[0] == 'ckf' else 'ukf'
            out.append(Like(zoo.Entry(sp.SP('%s-%s' % (fam[0], t), NL(s), fam, [Pp(), Uu(0), Uu(6, 1), ('n',)], 4), k), min(D, 5) if fam[0] in ('merwe', 'ckf') else min(D, 5) - 1 + th, reads=READS[:3]))
            out.append(Like(zoo.Entry(sp.SP('lin-%s-%s' % (fam[0], t), sp.Problem(s), fam, [Pp(), Uu(6), Uu(1, 1), ('n',)], 4), k), D - 1, reads=READS[:3]))
        out.append(Like(zoo.Entry(sp.SP('angle-' + t, Angle(s), ('merwe', .5, 2., 1.), [Pp(), Uu(0), Uu(1, 1), ('n',)], 4), 'ukf'), min(D, 5), reads=READS[:3]))
        if nx < 3 and nz < 3:
            for xf in ('col', '1d'):
                out.append(Like(zoo.Entry(bank.IMM('imm-%s-%s' % (t, xf), s, zoo.BASE[:2], [.6, .4], zoo.M2, [('p', None), ('u', 0, xf, None, None), ('u', 5, xf, None, None), ('n',)], 4, xform=xf), 'imm'), min(D, 5)))
    # sensors in very different units
    for nx, nz in ((2, 2), (3, 2)):
        s = Units(OutSys(nx, nz, var=11), [1., 2. ** -20, 2. ** 10], [2. ** -24, 2. ** 18])
        t = 'units-%dx%d' % (nx, nz)
        D = 5 if th else 4
        out.append(Like(zoo.Entry(lin.KF('kf-' + t, s, [P_, U(0), U(5, 'col', R=1), N_], 4), 'kf'), D, reads=READS[:3]))
        out.append(Like(zoo.Entry(kfs.Fading('fading-' + t, s, [P_, U(0), U(5, 'col', R=1), N_], 4, 'col', alpha=1.1), 'fading'), D - 1, reads=READS[:3]))
        out.append(Like(zoo.Entry(kfs.Info('info-' + t, s, [P_, U(0), U(5, 'col', R=1), N_], 4, 'col'), 'info'), D - 1, reads=[('L',), ('l',)]))
        for fam in (('merwe', .5, 2., 1.), ('ckf',)):
            out.append(Like(zoo.Entry(sp.SP('%s-%s' % (fam[0], t), sp.Problem(s), fam, [Pp(), Uu(0), Uu(1, 1), ('n',)], 4), 'ckf' if fam[0] == 'ckf' else 'ukf'), D - 1, reads=READS[:3]))
    out.append(engine.GridFn('procedural', proc_cases, proc))
    return [m for m in out if m is not None]
