import copy
import types
import inspect
import numpy as np
from mc import zoo, engine
from mc.refs import A

ID = 'P29'
LEVEL = 'model_checking'
BOUND = ('for every filter class (linear incl. steady-state and correlated operations, square-root, information, extended, unscented, cubature, ensemble, fading-memory, H-infinity, IMM, multiple-model bank, fixed-lag, g-h, g-h-k, '
         'order filters, polynomial memory, least squares) and a plain object with nested data and properties of a base class: every interleaving of filter operations with save, conversion to arrays and flattening up to depth 4 (quick) / 6 (thorough), '
         'under every combination of save_current x skip_private x skip_callable x ignore (linear filter, IMM, plain object) or a covering selection of them (other classes)')
ASSUMPTIONS = ['the snapshots are taken by an independent recursive copy of the object', 'to_array may raise ValueError for attributes whose shape changes over time (documented); then the lists must be intact']


# ---------------------------------------------------------------- independent snapshots

def snap(v, d=0):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('O', v.shape, tuple(snap(e, d + 1) for e in v.ravel()))
        return ('A', v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (float, np.floating)):
        return ('F', float(v).hex())
    if v is None or isinstance(v, (bool, int, str, bytes, np.integer, np.bool_)):
        return ('V', repr(v))
    if isinstance(v, (list, tuple)) or type(v).__name__ == 'deque':
        return (type(v).__name__,) + tuple(snap(e, d + 1) for e in v)
    if isinstance(v, dict):
        return ('D',) + tuple((str(k), snap(e, d + 1)) for k, e in sorted(v.items(), key=lambda q: str(q[0])))
    if isinstance(v, types.MethodType):
        return ('M', v.__func__.__qualname__)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc, type)) or not hasattr(v, '__dict__'):
        return ('C', getattr(v, '__qualname__', None) or getattr(v, '__name__', type(v).__name__))
    if d > 4:
        return ('X', type(v).__name__)
    return ('I', type(v).__name__) + tuple((k, snap(e, d + 1)) for k, e in sorted(v.__dict__.items()))


def arrays(v, d=0):
    """arrays and mutable containers reachable from v"""
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, (list, tuple)) or type(v).__name__ == 'deque':
        if not isinstance(v, tuple):
            yield v
        for e in v:
            for q in arrays(e, d + 1):
                yield q
    elif isinstance(v, dict):
        yield v
        for e in v.values():
            for q in arrays(e, d + 1):
                yield q
    elif hasattr(v, '__dict__') and not callable(v) and d < 4 and not isinstance(v, type):
        for e in v.__dict__.values():
            for q in arrays(e, d + 1):
                yield q


def shared(a, b):
    xs, ys = list(arrays(a)), list(arrays(b))
    for x in xs:
        for y in ys:
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                if x.size and y.size and np.shares_memory(x, y):
                    return True
            elif x is y:
                return True
    return False


def properties(o):
    return [n for k in type(o).__mro__ for n, v in vars(k).items() if isinstance(v, property)]


OPTS = [dict(), dict(save_current=True), dict(skip_private=True), dict(skip_callable=True), dict(ignore=('P', 'likelihood', 'inv', 'data')),
        dict(save_current=True, skip_private=True, skip_callable=True, ignore=('x', 'log_likelihood', '_R', 'total'))]
ALL = [dict(save_current=a, skip_private=b, skip_callable=c, ignore=d) for a in (False, True) for b in (False, True) for c in (False, True)
       for d in ((), ('P', 'likelihood', 'total', '_log_likelihood'))]


class Save(engine.Model):
    def __init__(self, e, depth, opt, tag, ops=None):
        self.e, self.b, self.opt = e, e.m, opt
        self.name, self.depth = '%s-%s' % (e.m.name, tag), depth
        self.ops = list(ops if ops is not None else e.m.ops) + [('save',), ('arr', False), ('arr', True)]

    # state: (base state, number of saves)
    def init(self):
        return self.b.init(), int(bool(self.opt.get('save_current'))), 'list'

    def step(self, st, op):
        bs, n, how = st
        if op[0] == 'save':
            return (bs, n + 1, 'list'), {'saver': lambda v: v, 'n': n + 1}
        if op[0] == 'arr':
            if n == 0 or how != 'list':
                return None
            return (bs, n, 'arr'), {'saver': lambda v: v, 'n': n}
        q = self.b.step(bs, op)
        return None if q is None else ((q[0], n, how), {'saver': lambda v: v, 'n': n})

    def fresh(self):
        from filterpy.common import Saver
        c = self.b.fresh()
        c.log = []
        c.first = self.snapshot(c) if self.opt.get('save_current') else None
        c.s = Saver(c.o, **self.opt)
        c.bad = None
        if c.first is not None:
            self.saved(c, c.first)
        c.arr = False
        return c

    def snapshot(self, c):
        return {k: snap(v) for k, v in c.o.__dict__.items()}

    def keep(self, k, v):
        return not (k in self.opt.get('ignore', ()))

    def saved(self, c, pre):
        """check the save that was just made"""
        o, s = c.o, c.s
        want = {}
        for k, v in o.__dict__.items():
            if k in self.opt.get('ignore', ()) or (self.opt.get('skip_private') and k.startswith('_')) or (self.opt.get('skip_callable') and callable(v)):
                continue
            want[k] = snap(v)
            if not k.startswith('_') and k in pre and pre[k] != want[k]:
                c.bad = c.bad or 'saving changed attribute %s' % k
        for p in properties(o):
            if p not in self.opt.get('ignore', ()) and not p.startswith('_'):
                want[p] = snap(getattr(o, p))
        c.log.append(want)
        keys = set().union(*[set(w) for w in c.log])
        priv = set(k for k in s.keys if k in properties(o) and k.startswith('_'))
        if set(s.keys) - priv != keys:
            c.bad = c.bad or 'saved keys differ: missing %r, unexpected %r' % (sorted(keys - set(s.keys)), sorted(set(s.keys) - keys))
            return
        for k in want:
            live = getattr(o, k)
            last = s[k][-1]
            if snap(last) != want[k]:
                c.bad = c.bad or 'saved %s is %r, the filter had %r' % (k, last, live)
            if shared(last, live):
                c.bad = c.bad or 'saved %s shares memory with the filter' % k
            for q in arrays(last):
                if isinstance(q, np.ndarray):
                    c.hold(q, 'saved ' + k)
            if len(s[k]) > 1 and shared(last, s[k][-2]):
                c.bad = c.bad or 'two saved values of %s share memory' % k

    def audit(self, c):
        s = c.s
        if len(s) != len(c.log):
            c.bad = c.bad or 'len(saver)=%d after %d saves' % (len(s), len(c.log))
        for k in set().union(*[set(w) for w in c.log]) if c.log else ():
            want = [w[k] for w in c.log if k in w]
            for how, got in (('[]', s[k]),) + (() if c.arr else (('.', getattr(s, k, None)),)):
                if got is None or len(got) != len(want):
                    c.bad = c.bad or 'saver%s%s holds %r values after %d saves' % (how, k, None if got is None else len(got), len(want))
                elif [snap(v) for v in got] != want:
                    c.bad = c.bad or 'history of %s changed' % k

    def arrays(self, c, flat):
        s = c.s
        lists = {k: list(s[k]) for k in s.keys}
        try:
            s.to_array(flat)
        except ValueError:
            if all(_plain(l) and len(set(np.shape(v) for v in l)) == 1 for l in lists.values()):
                c.bad = c.bad or 'to_array raised although all shapes agree'
            c.arr = False
            for k in s.keys:
                if not isinstance(getattr(s, k), list):
                    c.bad = c.bad or '%s is not a list after a failed conversion' % k
            return
        c.arr = True
        for k, l in lists.items():
            a = getattr(s, k)
            if not isinstance(a, np.ndarray):
                c.bad = c.bad or '%s is not an array after to_array' % k
                continue
            if len(a) != len(l):
                c.bad = c.bad or '%s has length %d after to_array, %d saves' % (k, len(a), len(l))
                continue
            if not all(isinstance(v, (np.ndarray, float, int)) and not (isinstance(v, np.ndarray) and v.dtype == object) for v in l):
                continue
            w = np.array(l)
            if w.size != a.size or not ((w.ravel() == a.ravel()) | ((w.ravel() != w.ravel()) & (a.ravel() != a.ravel()))).all():
                c.bad = c.bad or '%s has other values after %s' % (k, 'flatten' if flat else 'to_array')
            ok = [w.shape]
            if flat:
                ok = []
                if w.ndim == 3 and w.shape[2] == 1:
                    ok = [w.shape[:2]] + ([w.shape[:1]] if w.shape[1] == 1 else [])
                elif w.ndim == 2 and w.shape[1] == 1:
                    ok = [w.shape, w.shape[:1]]
                else:
                    ok = [w.shape]
            if a.shape not in ok:
                c.bad = c.bad or '%s has shape %r after %s, expected one of %r' % (k, a.shape, 'flatten' if flat else 'to_array', ok)

    def do(self, c, op):
        if op[0] == 'save':
            pre = self.snapshot(c)
            c.s.save()
            c.arr = False
            self.saved(c, pre)
        elif op[0] == 'arr':
            self.arrays(c, op[1])
        else:
            self.b.do(c, op)
        if op[0] in ('save', 'arr'):
            self.audit(c)
        return {'saver': c.bad, 'n': len(c.s), '_fp': list(zoo.estimate(self.e, c).values())}


def _plain(l):
    return all(isinstance(v, (np.ndarray, float, int)) for v in l)


# ---------------------------------------------------------------- a plain object

class Base(object):
    @property
    def total(self):
        return float(np.sum(self.x))

    @property
    def view(self):
        return self.x                    # hands out the live array


class Thing(Base):
    def __init__(self):
        self.x = np.array([1., 2.])
        self.data = {'a': [1, np.zeros(2)], 'b': np.ones((2, 1))}
        self._priv = [np.zeros(1)]
        self.fn = max
        self.n = 0

    @property
    def P(self):
        return self.data['b']


class Plain(engine.Model):
    name = 'plain'
    ops = [('u', 0), ('new', 0)]

    def init(self):
        return 0

    def step(self, st, op):
        return st, {}

    def fresh(self):
        return engine.Ctx(o=Thing())

    def do(self, c, op):
        o = c.o
        o.n += 1
        if op[0] == 'u':                 # everything in place
            o.x += o.n
            o.data['a'][1][0] += 1.
            o.data['a'][0] += 1
            o.data['b'] *= 1.5
            o._priv[0] -= 1.
        else:
            o.x = o.x * 2.
            o.data = {'a': [o.n, np.full(2, float(o.n))], 'b': np.full((2, 1), .5 * o.n)}
            o._priv.append(np.zeros(1))
            o.late = o.n


def models(tier):
    th = tier == 'thorough'
    out = []
    p = zoo.Entry(Plain(), 'plain', est=('x', 'n'))
    ent = [e for e in zoo.entries(shapes=((2, 2), (1, 1)) if not th else ((1, 1), (2, 1), (2, 2), (3, 2))) if e.kind != 'proc'] + zoo.others()
    for i, o in enumerate(ALL):
        out.append(Save(p, 6 if th else 5, o, 'opt%d' % i))
    for e in ent:
        full = e.name in ('kf-2x2-col', 'imm-2x2-col', 'ukf_merwe-2x2')
        if full:
            for i, o in enumerate(ALL):
                out.append(Save(e, 4, o, 'opt%d' % i, ops=[q for q in e.m.ops if zoo.role(q) in ('p', 'u', 'n')][:1] + [q for q in e.m.ops if zoo.role(q) == 'u'][-1:]))
        ops = [q for q in e.m.ops if zoo.role(q) == 'p'][-1:] + [q for q in e.m.ops if zoo.role(q) == 'u'][:1] + [q for q in e.m.ops if zoo.role(q) == 'n']
        n = sum(map(ord, e.name))
        out.append(Save(e, 5 if th else 4, OPTS[0], 'def', ops=ops))
        out.append(Save(e, 4 if th else 3, OPTS[1 + n % 5], 'o', ops=ops if not th else e.m.ops))
    return out
