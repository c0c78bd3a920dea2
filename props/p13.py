import copy
import numpy as np
from mc import zoo, engine
from mc.refs import A

ID = 'P13'
LEVEL = 'model_checking'
BOUND = ('for every filter class with prior/posterior/measurement records (linear incl. steady-state and correlated operations, square-root, information, extended incl. predict_update, unscented with 3 point schemes and circular state, cubature, '
         'ensemble, fading-memory, IMM, multiple-model bank): every sequence of predictions, updates and missing measurements up to depth 4 (quick) / 6 (thorough); after every operation the records are compared exactly with the '
         'estimate, the untouched record with its previous value, and memory aliasing with the estimate, the arguments and the other records is checked; dim_x 1-3, dim_z 1-2, column and 1-D states')
BOUND += '; larger problems (dim_x x dim_z 6x4, 5x7) at smaller depth'
ASSUMPTIONS = ['records before the first prediction/update are unspecified']


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())


def allnone(z):
    return all(v is None for v in np.ravel(np.array(z, dtype=object)))


class Rec(engine.Model):
    def __init__(self, e, depth, lasso=(2, 12)):
        self.e, self.b = e, e.m
        self.name, self.ops, self.depth, self.lasso = e.m.name, e.m.ops, depth, lasso

    def init(self):
        return self.b.init()

    def step(self, st, op):
        q = self.b.step(st, op)
        return None if q is None else (q[0], {'records': lambda v: v})

    def lasso_ok(self, w):
        r = [zoo.role(o) for o in w]
        return 'u' in r and self.b.lasso_ok(list(w))

    def fresh(self):
        c = self.b.fresh()
        c.seen = set()
        return c

    def do(self, c, op):
        e, o = self.e, c.o
        pairs = {'prior': e.prior, 'post': e.post}
        before = {k: {a: A(getattr(o, a)).copy() for a, _ in v} for k, v in pairs.items()}
        r = zoo.role(op)
        if r == 'pu':
            twin = copy.deepcopy(o)
            if op[3] is None:
                twin.predict()
            else:
                twin.predict(self.b.us(op[3]))
        self.b.do(c, op)
        now = {'p': ('prior',), 'u': ('post',), 'n': ('post',), 'pu': ('prior', 'post')}.get(r, ())
        bad = None
        for k, v in pairs.items():
            for a, b in v:
                rec, cur = getattr(o, a), getattr(o, b)
                if k in now and not (r == 'pu' and k == 'prior'):
                    if not same(rec, cur):
                        bad = bad or '%s=%r but %s=%r after %r' % (a, A(rec).tolist(), b, A(cur).tolist(), op)
                elif k not in now and not same(rec, before[k][a]):
                    bad = bad or '%s changed from %r to %r by %r' % (a, before[k][a].tolist(), A(rec).tolist(), op)
                if k in now:
                    for b2 in ('x', 'P', 'P_inv', '_P', '_P1_2', '_P_inv'):
                        t = getattr(o, b2, None)
                        if isinstance(t, np.ndarray) and isinstance(rec, np.ndarray) and np.shares_memory(rec, t):
                            bad = bad or '%s shares memory with %s after %r' % (a, b2, op)
                    for n, g, _ in c._given:
                        if isinstance(g, np.ndarray) and isinstance(rec, np.ndarray) and np.shares_memory(rec, g):
                            bad = bad or '%s shares memory with the caller\'s %s' % (a, n)
                    c.hold(rec, a)
        if r == 'pu':
            for a, b in e.prior:
                if not engine.close(getattr(o, a), getattr(twin, b), 1e-10, 1e-12):
                    bad = bad or '%s=%r after predict_update, the prediction alone gives %r' % (a, getattr(o, a), getattr(twin, b))
        if e.zrec and r in ('u', 'pu'):
            z = [g for g in c._given if g[0] == 'z'][-1]
            if not engine.close(np.asarray(o.z, dtype=float), np.asarray(z[2], dtype=float), 0, 0):
                bad = bad or 'recorded measurement %r, passed %r' % (o.z, z[2])
            if isinstance(o.z, np.ndarray) and isinstance(z[1], np.ndarray) and np.shares_memory(o.z, z[1]):
                bad = bad or 'recorded measurement shares memory with the argument'
        if e.zrec and r == 'n' and not allnone(o.z):
            bad = bad or 'recorded measurement is %r after a missing measurement' % (o.z,)
        return {'records': bad, '_fp': list(zoo.estimate(e, c).values())}


def models(tier):
    th = tier == 'thorough'
    out = []
    for e in zoo.entries():
        if e.prior is None:
            continue
        out.append(zoo.with_cycles(Rec(e, 6 if th else 4), 2000 if th else 300))
    for e in zoo.entries(shapes=((6, 4), (5, 7))):
        if e.prior is not None:
            out.append(Rec(e, 4 if th else 3, lasso=(2, 8)))
    return out
