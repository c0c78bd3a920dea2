import numpy as np
from mc import zoo
from mc.refs import A

ID = 'P02'
LEVEL = 'model_checking'
BOUND = ('for every filter class (linear in standard/steady-state/correlated mode, procedural, square-root, information, extended, unscented with 3 point schemes and circular state, cubature, ensemble with scripted noise, fading-memory, '
         'H-infinity, IMM, multiple-model bank): every sequence of predictions, updates and missing measurements up to depth 4-5 (quick) / 6 (thorough), i.e. every subset of missing measurements of every such history, plus periodic histories '
         'of 12 operations; compared exactly before/after and with the same history without the missing measurements; dim_x 1-3, dim_z 1-2, column and 1-D states')
BOUND += '; larger problems (dim_x x dim_z 6x4, 5x7) at smaller depth'
ASSUMPTIONS = ['the reference for "as if the call had not happened" is the same implementation run on the history without the missing measurements']


class Missing(zoo.Diff):
    def skip(self, op):
        return zoo.role(op) == 'n'

    def lasso_ok(self, w):
        r = [zoo.role(o) for o in w]
        return 'n' in r and 'u' in r and 'p' in r

    def do(self, c, op):
        e = self.e
        n = self.skip(op)
        if n:
            before = zoo.estimate(e, c)
        r = zoo.Diff.do(self, c, op)
        if n:
            after = zoo.estimate(e, c)
            r['unchanged'] = r['z'] = r['post'] = None
            for k in before:
                if before[k].shape != after[k].shape or not (before[k] == after[k]).all():
                    r['unchanged'] = '%s changed from %r to %r' % (k, before[k].tolist(), after[k].tolist())
            if e.zrec:
                if e.kind != 'proc':
                    z = c.o.z
                    r['z'] = None if all(v is None for v in np.ravel(np.array(z, dtype=object))) else 'recorded measurement is %r' % (z,)
            if e.kind == 'imm':
                for f in c.o.filters:
                    if not all(v is None for v in np.ravel(np.array(f.z, dtype=object))):
                        r['z'] = 'mode filter did not get the missing measurement'
            for a, b in e.post or ():
                p, q = A(getattr(c.o, a)), A(getattr(c.o, b))
                if p.shape != q.shape or not (p == q).all():
                    r['post'] = '%s is %r, %s is %r' % (a, p.tolist(), b, q.tolist())
        return r

    def expectation(self, st, op, tr):
        e = zoo.Diff.expectation(self, st, op, tr)
        if self.skip(op):
            for k in ('unchanged', 'z', 'post'):
                e[k] = lambda v: v
        return e


def get(models):
    return models


def models(tier):
    th = tier == 'thorough'
    out = []
    for e in zoo.entries():
        if not any(zoo.role(o) == 'n' for o in e.m.ops):
            continue
        d = 6 if th else (4 if e.kind in ('imm', 'mmae', 'ukf', 'enkf') or '3x' in e.name else 5)
        if len(e.m.ops) > 4 and not th:
            d = min(d, 4)
        m = Missing(e, d, lasso=(3, 12))
        out.append(m)
    for e in zoo.entries(shapes=((6, 4), (5, 7))):
        if any(zoo.role(o) == 'n' for o in e.m.ops):
            out.append(Missing(e, 4 if th else 3, lasso=(2, 8)))
    return out
