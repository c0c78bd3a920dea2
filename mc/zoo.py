"""every filter of the library behind one small interface, for the properties that hold for all of them.

An entry is an engine.Model (its step() is only used to know which operations are enabled; its fresh()/do() drive the real
object) plus a table saying what each operation is."""
import copy
import itertools
import numpy as np
from . import engine, refs
from .refs import A, Sys
from .lin import KF, Proc, P_, U, Pr, N_
from .kfs import SqrtKF, Info, Fading, EKFLin, Steady, SteadyProc
from .ekfnl import EKFNon
from .sp import SP, Problem, NL, Angle, Pp, Uu
from .enkf import EN
from .bank import IMM, MMAE
from .fls import FL
from .poly import Poly, LSQ

ROLE = {'p': 'p', 'sp': 'p', 'u': 'u', 'su': 'u', 'c': 'u', 's': 'u', 'n': 'n', 'sn': 'n', 'cn': 'n', 'pu': 'pu', 'set': 'set', 'q': 'q', 'init': 'set',
        'reset': 'set'}


def role(op):
    return ROLE[op[0]]


class HInf(engine.Model):
    """ops ('p', u) ('u', z) ('n',) ('set', a, i)"""

    def __init__(self, name, s, ops, depth=4, ctl=False, gamma=.01):
        self.name, self.s, self.ops, self.depth, self.ctl, self.gamma = name, s, ops, depth, ctl, gamma

    def init(self):
        return 0

    def step(self, st, op):
        return st, {}

    def fresh(self):
        from filterpy.hinfinity import HInfinityFilter
        s = self.s
        c = engine.Ctx()
        o = c.o = HInfinityFilter(s.nx, s.nz, s.nu if self.ctl else 0, self.gamma)
        o.x = c.give(s.x0.reshape(-1, 1).copy(), 'initial x')
        for n, v in (('P', s.P0), ('F', s.F[0]), ('Q', s.Q[0]), ('H', s.H[0]), ('V', s.R[0]), ('W', s.Q[1])):
            setattr(o, n, c.give(v.copy(), n))
        if self.ctl:
            o.B = c.give(s.B[0].copy(), 'B')
        return c

    def do(self, c, op):
        s = self.s
        if op[0] == 'p':
            if op[1] is None:
                c.o.predict()
            else:
                c.o.predict(c.give(s.u[op[1]].reshape(-1, 1).copy(), 'u'))
        elif op[0] == 'u':
            c.o.update(c.give(s.z[op[1]].reshape(-1, 1).copy(), 'z'))
        elif op[0] == 'n':
            c.o.update(None)
        elif op[0] == 'set':
            n = {'R': 'V'}.get(op[1], op[1])
            setattr(c.o, n, c.give(getattr(s, op[1])[op[2]].copy(), 'assigned ' + op[1]))
        elif op[0] == 'q':
            repr(c.o)
        c.hold(c.o.x, 'x')
        c.hold(c.o.P, 'P')
        return {'x': c.o.x, 'P': c.o.P}


BASE = [(0, 0, 1., 0, 0, 0, 0), (1, 1, 3., 0, 0, 1, 0), (2, 2, .2, 1, 1, 0, 1)]
M3 = A([[.8, .15, .05], [.1, .6, .3], [.25, .05, .7]])
M2 = A([[.9, .1], [.3, .7]])


def gen(k):
    r = np.random.RandomState(100 + k)
    M = np.round(r.normal(0, 1, (16, 6)), 2)
    return lambda i, j: M[i % 16, j % 6]


class Entry(object):
    """rec: names of the bookkeeping attributes (prior/posterior pairs) ; est: attributes that form the estimate"""

    def __init__(self, m, kind, est=('x', 'P'), prior=None, post=None, zrec=True):
        self.m, self.kind, self.est = m, kind, est
        self.prior = prior
        self.post = post
        self.zrec = zrec

    name = property(lambda s: s.m.name)


PP = (('x_prior', 'x'), ('P_prior', 'P'))
QQ = (('x_post', 'x'), ('P_post', 'P'))


def estimate(e, c):
    """copies of everything that is the estimate"""
    o = getattr(c, 'o', None)
    r = {}
    if o is None:                                   # procedural
        r['x'], r['P'] = A(c.x), A(getattr(c, 'P', 0.))
        return r
    for k in e.est:
        if k == 'modes':
            r['modes x'] = A([A(f.x) for f in o.filters])
            r['modes P'] = A([A(f.P) for f in o.filters])
        elif k == 'xSmooth':
            r[k] = A([np.ravel(q) for q in o.xSmooth]) if len(o.xSmooth) else np.zeros(0)
        else:
            v = getattr(o, k)
            r[k] = A(v).copy()
    return r


def entries(shapes=((1, 1), (2, 1), (2, 2), (3, 2)), var=21, ctl=True):
    out = []
    for nx, nz in shapes:
        s = Sys(nx, nz, nu=1, var=var)
        t = '%dx%d' % (nx, nz)
        for xf in ('col', '1d'):
            f = xf
            c3 = [P_, Pr(u=0), U(0, f), U(1, f, R=1), N_] if ctl else [P_, U(0, f), U(1, f, R=1), N_]
            out.append(Entry(KF('kf-%s-%s' % (t, xf), s, c3, 4, xf, ctl=ctl), 'kf', prior=PP, post=QQ))
            out.append(Entry(Steady('steady-%s-%s' % (t, xf), s, [('sp', 0, None), ('su', 0, f), ('sn',), P_, U(1, f)], 4, xf, ctl=True), 'kf', est=('x', 'P', 'K'), prior=PP, post=QQ))
            out.append(Entry(Corr('corr-%s-%s' % (t, xf), s, [P_, ('c', 0, f, None, None), ('c', 1, f, 1, None), ('cn',)], 4, xf), 'kf', prior=PP, post=QQ))
            out.append(Entry(EKFNon('ekf-%s-%s' % (t, xf), s, [P_, ('u', 0, 'plain', None, False), ('u', 1, 'tuple', 1, True), ('pu', 2, 'plain', None), N_], 4, xf), 'ekf', prior=PP, post=QQ))
            if nx < 3:
                out.append(Entry(Proc('proc-%s-%s' % (t, xf), s, [P_, U(0, f), U(1, f, R=1), N_], 4, xf), 'proc'))
                out.append(Entry(Wrap(SteadyProc('steadyproc-%s-%s' % (t, xf), s, [('sp', None, None), ('su', 0, f), ('sn',)], 4, xf)), 'proc'))
            iops = [('p', None), ('u', 0, f, None, None), ('u', 1, f, None, None), ('n',)]
            if nx < 3:
                out.append(Entry(IMM('imm-%s-%s' % (t, xf), s, BASE[:2], [.6, .4], M2, iops, 4, xform=xf), 'imm', est=('x', 'P', 'mu', 'modes'), prior=PP, post=QQ, zrec=False))
                out.append(Entry(MMAE('mmae-%s-%s' % (t, xf), s, BASE, [.5, .3, .2], None, iops + [('u', 2, f, 1, None)], 4, xform=xf), 'mmae', est=('x', 'P', 'p', 'modes'),
                                 prior=PP, post=QQ))
        lin = [P_, Pr(u=0), U(0), U(1, 'col', R=1), N_] if ctl else [P_, U(0), U(1, 'col', R=1), N_]
        out.append(Entry(SqrtKF('sqrt-' + t, s, lin, 4, 'col', ctl=ctl), 'sqrt', prior=PP, post=QQ))
        out.append(Entry(Info('info-' + t, s, lin, 4, 'col', ctl=ctl), 'info', est=('x', 'P_inv'), prior=(('x_prior', 'x'), ('P_inv_prior', 'P_inv')),
                         post=(('x_post', 'x'), ('P_inv_post', 'P_inv'))))
        out.append(Entry(Fading('fading-' + t, s, lin, 4, 'col', alpha=1.1, ctl=ctl), 'fading', prior=PP, post=QQ))
        out.append(Entry(HInf('hinf-' + t, s, [('p', None), ('p', 0), ('u', 0), ('u', 1), ('n',)], ctl=True), 'hinf', zrec=False))
        for fam in (('merwe', .5, 2., 1.), ('julier', 1.), ('simplex',), ('ckf',)):
            p = NL(s)
            nm = '%s-%s' % (fam[0] if fam[0] == 'ckf' else 'ukf_' + fam[0], t)
            out.append(Entry(SP(nm, p, fam, [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), ('n',)], 4), 'ckf' if fam[0] == 'ckf' else 'ukf', prior=PP, post=QQ))
        out.append(Entry(SP('ukf_angle-' + t, Angle(s), ('merwe', .5, 2., 1.), [Pp(), Uu(0), Uu(1, 1), ('n',)], 4), 'ukf', prior=PP, post=QQ))
        out.append(Entry(EN('enkf-' + t, NL(s), 4, [gen(k) for k in range(4)], [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('n',)], 4), 'enkf', est=('x', 'P', 'sigmas'),
                         prior=PP, post=QQ))
    return out


def others():
    """filters without covariance bookkeeping / missing measurements"""
    out = []
    for nx, nz in ((2, 1), (2, 2)):
        s = Sys(nx, nz, nu=1, var=22)
        for N in (1, 3):
            out.append(Entry(FL('lag%d-%dx%d' % (N, nx, nz), s, N, [('u', 0, None), ('u', 1, 0), ('u', 2, 0)], 4, 'col', ctl=True), 'fls', est=('x', 'P', 'xSmooth'), zrec=False))
    zs = [1.3, -2., .7]
    u = [('u', i, ()) for i in range(3)]
    out.append(Entry(Poly('gh', 'gh', 1, .5, [1., .5], (.6, .3), u, 4, zs), 'gh', est=('x', 'dx'), zrec=False))
    out.append(Entry(Poly('ghk', 'ghk', 2, .5, [1., .5, .2], (.6, .3, .1), u, 4, zs), 'ghk', est=('x', 'dx', 'ddx'), zrec=False))
    for o in (0, 1, 2):
        out.append(Entry(Poly('order%d' % o, 'order', o, .5, [1., .5, .2][:o + 1], (.6, .3, .1)[:o + 1], u, 4, zs), 'order', est=('x',), zrec=False))
        out.append(Entry(Poly('mem%d' % o, 'mem', o, .5, [1., 0., 0.][:o + 1], (.6,), u, 4, zs), 'mem', est=('x',), zrec=False))
        out.append(Entry(LSQ('lsq%d' % o, o, .5, .3, zs, 4), 'lsq', est=('x', 'n'), zrec=False))
    return out


class Corr(Steady):
    def setup(self, kf, c):
        Steady.setup(self, kf, c)
        kf.M = c.give(.5 * self.sys.M.copy(), 'M')

    def init(self):
        st = Steady.init(self)
        st['M'] = .5 * self.sys.M
        return st


class Wrap(engine.Model):
    def __init__(self, m):
        self.w, self.name, self.ops, self.depth = m, m.name, m.ops, m.depth
        self.init, self.step, self.fresh, self.do = m.init, m.step, m.fresh, m.do


# ------------------------------------------------------------------- differential model

class Failed(object):
    def __init__(self, e):
        self.e = e


class Diff(engine.Model):
    """state = (state of the base model, operations actually performed); the expectation is what the real code gives when only those
    operations are performed on a new object"""
    rtol = 1e-12
    atol = 1e-13

    def __init__(self, e, depth, ops=None, name=None, lasso=None):
        self.e, self.b = e, e.m
        self.name = name or e.m.name
        self.ops = list(ops if ops is not None else e.m.ops)
        self.depth = depth
        self.lasso = lasso
        self.cache = {}

    def init(self):
        return (self.b.init(), ())

    def skip(self, op):
        return False

    def fresh(self):
        return self.b.fresh()

    def observe(self, c):
        return estimate(self.e, c)

    def ran(self, tr):
        if tr not in self.cache:
            try:
                c = self.b.fresh()
                for o in tr:
                    self.b.do(c, o)
                self.cache[tr] = self.observe(c)
            except Exception as ex:
                self.cache[tr] = Failed(ex)
        return self.cache[tr]

    def expectation(self, st, op, tr):
        r = self.ran(tr)
        if isinstance(r, Failed):
            return {'reduced history raises': lambda v, r=r: repr(r.e)}
        if not all(np.isfinite(A(v)).all() for v in r.values()):
            return {'finite': lambda v: 'reduced history gives non-finite values'}
        return dict(r)

    def step(self, st, op):
        bs, tr = st
        if self.skip(op):
            return (bs, tr), self.expectation(st, op, tr)
        q = self.b.step(bs, op)
        if q is None:
            return None
        return (q[0], tr + (op,)), self.expectation(st, op, tr + (op,))

    def do(self, c, op):
        self.b.do(c, op)
        r = self.observe(c)
        r['reduced history raises'] = r['finite'] = 0
        return r


def with_cycles(m, limit=None):
    """adds prediction-update cycles to a model: every history of three cycles in which at most two different (prediction, update) pairs occur
    (`limit`: every so many of them)"""
    ps = [o for o in m.ops if role(o) == 'p']
    us = [o for o in m.ops if role(o) in ('u', 'n')]
    pairs = [(p, u) for p in ps for u in us]
    words = [a + b + c for a in pairs for b in pairs if a != b for c in (a, b)] + [a + a + b for a in pairs for b in pairs]
    if limit and len(words) > limit:
        words = words[::-(-len(words) // limit)]
    old = m.extra
    m.extra = lambda: itertools.chain(old(), words)
    return m
