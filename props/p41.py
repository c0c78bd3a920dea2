import numpy as np
from mc import zoo, engine
from mc.refs import Sys
from mc.kfs import Seq
from props import p38, p39
from props.p42 import SEQ

ID = 'P41'
LEVEL = 'model_checking'
BOUND = ('every filter class (linear incl. steady-state and correlated operations, procedural, square-root, information, extended, unscented with 4 point schemes, cubature, ensemble, fading-memory, H-infinity, IMM, multiple-model bank, '
         'fixed-lag, g-h family, least squares): every history of its alphabet up to depth 4 (quick) / 5 (thorough), with every array the caller owns stored read-only, column-major, strided, back to front, in the other byte order, as a '
         'read-only column-major view, or with equal arrays of all roles being one object; all public attributes equal those with plain arrays; batch filters, smoothers, sigma points, unscented transform, Gaussian, discretization and discrete Bayes functions likewise; dim_x 1-3, dim_z 1-2')
ASSUMPTIONS = ['the g-h order and fading-memory polynomial filters document that they work on the given state in place: not checked with read-only states']


class Stored(engine.Model):
    rtol = 1e-10
    atol = 1e-12

    def __init__(self, e, mode, depth, name=None):
        self.e, self.b, self.mode, self.depth = e, e.m, mode, depth
        self.name = '%s-%s' % (e.m.name, mode)
        self.ops = e.m.ops
        self.cache = {}

    def init(self):
        return (self.b.init(), ())

    def under(self, pool, f, *a):
        try:
            if self.mode == 'shared':
                engine.Ctx.pool = pool
            else:
                engine.Ctx.layout = self.mode
            return f(*a)
        finally:
            engine.Ctx.layout = engine.Ctx.pool = None

    def seen(self, c):
        if hasattr(c, 'o'):
            r = p38.public(c.o)
            if isinstance(self.b, Seq):         # likelihoods are not maintained there
                r = {k: v for k, v in r.items() if k not in ('likelihood', 'log_likelihood', 'mahalanobis')}
            return r
        return zoo.estimate(self.e, c)

    def ran(self, tr):
        if tr not in self.cache:
            c = self.b.fresh()
            for o in tr:
                self.b.do(c, o)
            self.cache[tr] = self.seen(c)
        return self.cache[tr]

    def step(self, st, op):
        q = self.b.step(st[0], op)
        if q is None:
            return None
        tr = st[1] + (op,)
        return (q[0], tr), self.ran(tr)

    def fresh(self):
        pool = Any()
        c = self.under(pool, self.b.fresh)
        c.const = False
        c.shared = pool
        return c

    def do(self, c, op):
        self.under(c.shared, self.b.do, c, op)
        return self.seen(c)


class Any(dict):
    """one object for all equal arrays, whatever their role"""

    def setdefault(self, k, a):
        return dict.setdefault(self, k[1:], a)


class Eq(Sys):
    """all square matrices of a size are equal, and the control input equals the state"""

    def __init__(self, *a, **k):
        Sys.__init__(self, *a, **k)
        M = np.array(self.P0)
        n = self.nz
        self.Q = [M.copy() for _ in self.Q]
        self.P1 = M.copy()
        self.F = [M / np.abs(M).sum() if i == 1 else M.copy() for i in range(len(self.F))]
        if n == self.nx:
            self.R = [M.copy() for _ in self.R]
            self.H = [M.copy() for _ in self.H]
        self.z = [self.x0[:n].copy() if n <= self.nx else z for z in self.z]
        self.x1 = self.x0.copy()


class Pure(engine.Grid):
    """a pure function gives the same for arrays stored differently"""

    def __init__(self, g, skip=()):
        self.g, self.name, self.skip = g, g.name, skip

    def cases(self):
        return [(c, m) for c in self.g.cases() for m in engine.LAYOUTS if not (m.startswith('ro') and c[0] in self.skip)]

    def check(self, case):
        c, m = case
        f = self.g.flat(self.g.call(c, float))
        a = self.g.flat(self.g.call(c, m))
        if len(a) != len(f) or any(p.shape != q.shape for p, q in zip(a, f)):
            return ('shape with arrays stored as %s' % m, [q.shape for q in f], [q.shape for q in a]), None
        for p, q in zip(a, f):
            if not engine.close(p, q, 1e-10, 1e-12):
                return ('value with arrays stored as %s' % m, q, p), None
        return None, np.concatenate([q.ravel() for q in f])


def models(tier):
    th = tier == 'thorough'
    out = []
    seq = [zoo.Entry(Seq('seq-%dx%d' % q, Sys(q[0], q[1], var=21), SEQ[q[1]], 4), 'kf') for q in ((1, 1), (2, 1), (2, 2), (3, 2))]
    es = zoo.entries(shapes=((1, 1), (2, 1), (2, 2), (3, 2)) if th else ((2, 1), (2, 2))) + zoo.others() + seq
    for e in es:
        for m in engine.LAYOUTS:
            if e.kind in ('order', 'mem') and m.startswith('ro'):
                continue
            if e.kind == 'lsq':
                continue
            d = (5 if len(e.m.ops) < 6 else 4) if th else 4 if '2x1' in e.name and m in ('ro', 'F') else 3
            out.append(Stored(e, m, d))
    zoo_sys, zoo.Sys = zoo.Sys, Eq
    try:
        es = zoo.entries(shapes=((2, 2), (2, 1)) if not th else ((1, 1), (2, 1), (2, 2), (3, 2))) + zoo.others()
    finally:
        zoo.Sys = zoo_sys
    for e in es:
        if e.kind not in ('lsq', 'order', 'mem'):
            e.m.name += '-equal'
            out.append(Stored(e, 'shared', 5 if th and len(e.m.ops) < 6 else 4))
    for g in p39.pure():
        out.append(Pure(g, ('order', 'mem')))
    return out
