import numpy as np
from mc.engine import lengthen
from mc import engine, refs
from mc.hinf import HI
from mc.refs import A, Sys

ID = 'P36'
LEVEL = 'model_checking'
BOUND = ('every sequence of predictions (with and without control input), updates, missing measurements and reassignments of x, P, F, H, Q, V (matrix or scalar), W, B and gamma up to depth 4 (quick) / 6 (thorough), plus every '
         'periodic history w^k with |w|<=2 up to 30 operations; dim_x 1-3, dim_z 1-2, gamma in {0, 0.01, 0.05, 0.2, -0.1}; every batch of up to 4 measurements with gaps, both orders; the Kalman limit gamma=0, F=I')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['steps at which the minimax problem has no solution (the information matrix is not positive definite) are not explored',
               'the documentation of the class warns that predict leaves P alone: the step of the recursion that involves F and W belongs to update']


class KalmanLimit(engine.Model):
    """gamma=0, F=I: the filter is the Kalman filter whose prediction adds W after every update"""

    def __init__(self, name, s, depth):
        self.name, self.s, self.depth = name, s, depth
        self.ops = [('u', 0), ('u', 1), ('u', 2), ('p', None), ('n',)]
        self.h = HI(name, s, self.ops, depth, 0., F='I')

    def init(self):
        return self.s.x0, self.s.P0

    def step(self, st, op):
        x, P = st
        s = self.s
        if op[0] == 'u':
            x, P = refs.update(x, P, s.z[op[1]], s.H[0], s.R[0])[:2]
            x, P = refs.predict(x, P, np.eye(s.nx), s.Q[1])
        return (x, P), {'x!': x.reshape(-1, 1), 'P!': P}

    def fresh(self):
        return self.h.fresh()

    def do(self, c, op):
        return self.h.do(c, op)


class Batch(engine.Grid):
    def __init__(self, name, h, n):
        self.name, self.h, self.n = name, h, n

    def cases(self):
        import itertools
        for n in range(self.n + 1):
            for w in itertools.product((0, 1, None), repeat=n):
                for first in (False, True, None):
                    for sv in (False, True):
                        yield w, first, sv

    def check(self, case):
        w, first, sv = case
        h = self.h
        c = h.fresh()
        from filterpy.common import Saver
        st = h.init()
        xs, Ps, log = [], [], []
        for i in w:
            for k in ('up' if first else 'pu'):
                st = h.step(st, ('p', None) if k == 'p' else ('n',) if i is None else ('u', i))[0]
                if k == 'u':
                    xs.append(st['x'].reshape(-1, 1))
                    Ps.append(st['P'])
            log.append((st['x'].reshape(-1, 1), st['P']))
        kw = {} if first is None else {'update_first': first}
        if sv:
            kw['saver'] = Saver(c.o)
        zs = c.give([None if i is None else h.zarg(h.s.z[i]) for i in w], 'measurements')
        m, P = c.o.batch_filter(zs, **kw)
        n = len(w)
        if m.shape != (n, h.s.nx, 1) or P.shape != (n, h.s.nx, h.s.nx):
            return ('shape of the results', (n, h.s.nx, 1), m.shape), None
        for a, b, t in ((m, xs, 'means'), (P, Ps, 'covariances')):
            if n and not engine.close(a, b, 1e-8):
                return (t, A(b), a), None
        if not engine.close(c.o.x, st['x']) or not engine.close(c.o.P, st['P']):
            return ('filter after the batch', st['x'], c.o.x), None
        if sv:
            s = kw['saver']
            if len(s) != n or (n and (not engine.close(A(s.x), A([q[0] for q in log])) or not engine.close(A(s.P), A([q[1] for q in log])))):
                return ('saved epochs', [q[0] for q in log], getattr(s, 'x', None)), None
        f = c.frames()
        return f, (m.tobytes() + P.tobytes()) if f is None else None


def models(tier):
    th = tier == 'thorough'
    out = []
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 2)):
        t = '%dx%d' % (nx, nz)
        s = Sys(nx, nz, nu=1, var=71)
        core = [('p', None), ('u', 0), ('u', 1), ('n',)]
        for g in (0., .01, .05, .2, -.1):
            out.append(HI('core-g%g-%s' % (g, t), s, core + [('p', 0)], 6 if th else 4, g, True, lasso=(2, 30)))
        out.append(HI('noctl-' + t, s, core, 5, .05, lasso=(2, 30)))
        out.append(HI('set-' + t, s, [('p', None), ('u', 0)] + [('set', n, 1) for n in ('x', 'P', 'F', 'H', 'Q', 'V')] + [('set', 'W', 2), ('set', 'gamma', .1), ('set', 'B', 1), ('p', 1)], 4 if th else 3, .05, True))
        out.append(HI('zero-' + t, s, [('p', None), ('u', 0), ('set', 'Q', 'z'), ('set', 'W', 'z'), ('set', 'gamma', 0.), ('set', 'F', 'I')], 4, .05))
        if nz == 1:
            out.append(HI('scalar-' + t, s, [('p', None), ('u', 0), ('u', 1), ('set', 'V', 2.), ('set', 'V', 1), ('set', 'V', .3)], 5 if th else 4, .05, vscal=1.7))
            out.append(HI('scalarz-' + t, s, core, 4, .05, zform='scalar'))
        out.append(KalmanLimit('kalman-' + t, s, 5))
        out.append(Batch('batch-' + t, HI('b', s, (), 0, .05), 5 if th else 4))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        out.append(HI(t, s, [('p', None), ('p', 0), ('u', 0), ('u', 1), ('n',)], 4 if th else 3, .02, True, lasso=(2, 8)))
    return lengthen(out, 1000 if th else 300)
