import copy
import pickle
import numpy as np
from mc import zoo, engine
from mc.refs import A

ID = 'P38'
LEVEL = 'model_checking'
BOUND = ('every filter class (linear incl. steady-state and correlated operations, square-root, information, extended, unscented with 4 point schemes and circular state, cubature, ensemble, fading-memory, H-infinity, IMM, multiple-model bank, '
         'fixed-lag, g-h family, fading-memory polynomial, least squares): every history over {prediction, two updates, missing measurement, take a deep copy or a pickled copy, change over to the other object, modify every array of one object in place} up to length 5 (quick) / 6 (thorough); '
         'after every operation all public numeric attributes of both objects equal those of an uncopied object with the same history')
ASSUMPTIONS = ['functions given by the user can be copied', 'a copy made by pickling is only demanded where the object can be pickled']


def public(o):
    """every public numeric attribute, and those of the filters inside"""
    r = {}
    for n in dir(o):
        if n.startswith('_'):
            continue
        try:
            v = getattr(o, n)
        except Exception:
            continue
        if callable(v) or isinstance(v, (str, dict, bool)):
            continue
        if n == 'filters':
            for i, f in enumerate(v):
                r.update({'filters[%d].%s' % (i, k): q for k, q in public(f).items()})
            continue
        try:
            a = np.asarray(v, dtype=float)
        except Exception:
            continue
        r[n] = np.nan_to_num(a, nan=-7.7, posinf=9e9, neginf=-9e9).copy()
    return r


ARRAYS = ('x', 'P', 'F', 'Q', 'R', 'H', 'B', 'M', 'V', 'W', 'P_inv', 'R_inv', 'K', 'sigmas', 'mu', 'p', 'dx')


def scale(c):
    """the user modifies every array of the object in place"""
    for f in [c.o] + list(getattr(c.o, 'filters', [])):
        for n in ARRAYS:
            a = getattr(f, n, None)
            if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
                c.forget(a)
                a *= 1.0625
    if hasattr(c.o, 'xSmooth'):
        for a in c.o.xSmooth:
            c.forget(a)
            a *= 1.0625


class Fork(engine.Model):
    rtol = 1e-12
    atol = 1e-13

    def __init__(self, e, ops, depth, how):
        self.e, self.b, self.how, self.depth = e, e.m, how, depth
        self.name = '%s-%s' % (e.m.name, how)
        self.ops = [('fork',), ('swap',), ('scale',)] + list(ops)
        self.cache = {}

    def init(self):
        return ((self.b.init(), ()), None)

    def ran(self, tr):
        if tr not in self.cache:
            c = self.b.fresh()
            for o in tr:
                scale(c) if o == ('scale',) else self.b.do(c, o)
            self.cache[tr] = public(c.o)
        return self.cache[tr]

    def step(self, st, op):
        a, b = st
        if op[0] == 'fork':
            if b is not None:
                return None
            n = (a, a)
        elif op[0] == 'swap':
            if b is None or a[1] == b[1]:
                return None
            n = (b, a)
        elif op[0] == 'scale':
            if b is None or op in a[1] or op in b[1]:
                return None
            n = ((a[0], a[1] + (op,)), b)
        else:
            q = self.b.step(a[0], op)
            if q is None:
                return None
            n = ((q[0], a[1] + (op,)), b)
        e = {'object: ' + k: v for k, v in self.ran(n[0][1]).items()}
        if n[1] is not None:
            e.update({'other: ' + k: v for k, v in self.ran(n[1][1]).items()})
        return n, e

    def fresh(self):
        c = self.b.fresh()
        c.other = None
        c.const = False                 # (fixed-lag driver: no comparison with a batch)
        return c

    @staticmethod
    def side(c):
        return {k: list(getattr(c, k)) for k in ('zs', 'us') if hasattr(c, k)}

    def do(self, c, op):
        if op[0] == 'fork':
            c.other = c.o
            c.otherside = self.side(c)
            if self.how == 'pickle':
                try:
                    c.o = pickle.loads(pickle.dumps(c.o))
                except (TypeError, AttributeError, pickle.PicklingError):
                    c.o = copy.deepcopy(c.o)
            else:
                c.o = copy.deepcopy(c.o)
        elif op[0] == 'swap':
            c.o, c.other = c.other, c.o
            t = self.side(c)
            for k, v in c.otherside.items():
                setattr(c, k, v)
            c.otherside = t
        elif op[0] == 'scale':
            scale(c)
        else:
            self.b.do(c, op)
        r = {'object: ' + k: v for k, v in public(c.o).items()}
        if c.other is not None:
            r.update({'other: ' + k: v for k, v in public(c.other).items()})
        return r


def models(tier):
    th = tier == 'thorough'
    out = []
    deep = ((1, 1), (2, 1), (2, 2), (3, 2)) if th else ((2, 1),)
    for e in zoo.entries(shapes=((1, 1), (2, 1), (2, 2)) if not th else deep) + zoo.others():
        if e.kind == 'proc':
            continue
        ops, n = [], {}
        for o in e.m.ops:
            k = zoo.role(o)
            if n.get(k, 0) < (2 if k == 'u' else 1):
                n[k] = n.get(k, 0) + 1
                ops.append(o)
        d = 6 if th else 5 if '2x1' in e.name or len(ops) < 4 else 4
        out.append(Fork(e, ops, d, 'deepcopy'))
        out.append(Fork(e, ops, d - 1, 'pickle'))
    return out
