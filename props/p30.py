import io
import math
import contextlib
import itertools
import numpy as np
from mc import zoo, engine
from mc.refs import A

ID = 'P30'
LEVEL = 'model_checking'
BOUND = ('reshape_z: every array/list/scalar of shape up to 3 axes of length 0-4 against every dim_z 1-4 and state rank 0-2 (accept with the same values in order, or ValueError); inv_diagonal: every diagonal over a 6-value palette up to 3x3 '
         'and every non-square shape; outer_product_sum: every integer matrix pair of a palette up to 4x3; runge_kutta4: a grid of right-hand sides (all monomials x^i y^j, vectors), start values and steps, plus order conditions; '
         'copy_states and compare_kf: every interleaving up to depth 4 (quick) / 5 (thorough) of operations on two filters of the same class with state copies, for every filter class, compared with each filter run alone')
ASSUMPTIONS = ['compare_kf: only numeric, missing and function-valued public attributes are judged']


# ------------------------------------------------------------- reshape_z

def shapes():
    for nd in (0, 1, 2, 3):
        for s in itertools.product(range(0, 5) if nd < 3 else (1, 2), repeat=nd):
            yield s


def rz_cases():
    for dim in (1, 2, 3, 4):
        for s in shapes():
            for nd in (1, 2) + ((0,) if dim == 1 else ()):
                for how in ('array', 'list', 'int', 'F', 'view'):
                    if how in ('F', 'view') and len(s) < 1:
                        continue
                    yield dim, s, nd, how


def rz(case):
    from filterpy.common import reshape_z
    dim, s, nd, how = case
    n = int(np.prod(s))
    v = np.arange(1., n + 1) * 1.25
    if how == 'int':
        v = np.arange(1, n + 1) * 3
    z = v.reshape(s)
    if how == 'F':
        z = np.asfortranarray(z)
    if how == 'view':
        big = np.zeros(tuple(2 * k for k in s))
        big[tuple(slice(None, None, 2) for _ in s)] = z
        z = big[tuple(slice(None, None, 2) for _ in s)]
    arg = z.tolist() if how == 'list' else z
    keep = z.copy()
    # vectors of dim elements: scalar (dim 1), 1-D, row and column
    ok = n == dim and (len(s) == 0 or len(s) == 1 or (len(s) == 2 and 1 in s))
    try:
        r = reshape_z(arg, dim, nd)
    except ValueError:
        return ('rejected although convertible' if ok else None), ('rej', dim, s)
    if not ok:
        return ('accepted shape %r for dim_z=%d' % (s, dim), 'ValueError', r), None
    want = {0: (), 1: (dim,), 2: (dim, 1)}[nd]
    if np.shape(r) != want:
        return ('shape', want, np.shape(r)), None
    if not (np.ravel(r) == v).all():
        return ('values', v, r), None
    if isinstance(arg, np.ndarray) and not (arg == keep).all():
        return ('argument modified', keep, arg), None
    return None, (dim, s, nd)


# ------------------------------------------------------------- inv_diagonal

PAL = [1., -2., .5, 1e-8, 3e7, 7.]


def inv_cases():
    for n in (1, 2, 3):
        for d in itertools.product(PAL, repeat=n):
            yield 'ok', d, 'array'
    for d in itertools.product((1, 4, -5), repeat=2):
        yield 'ok', d, 'int'
        yield 'ok', d, 'list'
    yield 'ok', tuple(float(k + 1) for k in range(8)), 'array'
    for s in shapes():
        if len(s) != 2 or s[0] != s[1]:
            yield 'bad', s, 'array'


def inv(case):
    from filterpy.common import inv_diagonal
    kind, d, how = case
    if kind == 'bad':
        try:
            r = inv_diagonal(np.ones(d))
        except ValueError:
            return None, d
        return ('shape %r accepted' % (d,), 'ValueError', r), None
    S = np.diag(d)
    if how == 'int':
        S = S.astype(int)
    arg = S.tolist() if how == 'list' else S
    keep = S.copy()
    r = inv_diagonal(arg)
    w = np.zeros(S.shape)
    for i, e in enumerate(d):
        w[i, i] = 1. / e
    if np.shape(r) != w.shape or not (np.abs(r - w) <= 1e-15 * np.abs(w)).all():
        return ('inverse', w, r), None
    if not (S == keep).all():
        return ('argument modified', keep, S), None
    return None, ('i', d)


# ------------------------------------------------------------- outer_product_sum

def ops_cases():
    for M in (1, 2, 3, 4, 7):
        for N in (1, 2, 3):
            for K in (0, 1, 2, 3):
                for k in range(6):
                    for how in ('f', 'i', 'v'):
                        yield M, N, K, k, how


def outer(case):
    from filterpy.common import outer_product_sum
    M, N, K, k, how = case
    r = np.random.RandomState(M * 100 + N * 10 + k)
    X = np.round(r.normal(0, 2, (M, N)), 2) if how != 'i' else r.randint(-4, 5, (M, N))
    Y = None if K == 0 else (np.round(r.normal(0, 2, (M, K)), 2) if how != 'i' else r.randint(-4, 5, (M, K)))
    if how == 'v':
        X = np.asfortranarray(X)
    kx = X.copy()
    ky = None if Y is None else Y.copy()
    got = outer_product_sum(X) if Y is None and k % 2 else outer_product_sum(X, Y)
    Z = X if Y is None else Y
    w = [[math.fsum(float(X[m, i]) * float(Z[m, j]) for m in range(M)) for j in range(Z.shape[1])] for i in range(N)]
    if np.shape(got) != np.shape(w) or not engine.close(got, w, 1e-13, 1e-13):
        return ('sum of outer products', w, got), None
    if not (kx == X).all() or (Y is not None and not (ky == Y).all()):
        return ('argument modified', kx, X), None
    return None, tuple(np.ravel(w))


# ------------------------------------------------------------- runge_kutta4

def rk_cases():
    for y0 in (0., 1., -.75, 2.5):
        for x0 in (0., 1.5, -2.):
            for dx in (.1, .5, -.25, 1.):
                for i in range(5):
                    for j in range(3):
                        yield 'mono', y0, x0, dx, (i, j)
                for lam in (1., -2., .3):
                    yield 'exp', y0, x0, dx, lam
                yield 'vec', y0, x0, dx, None
                yield 'sin', y0, x0, dx, None


def rk(case):
    from filterpy.common import runge_kutta4
    kind, y0, x0, dx, p = case
    calls = []
    if kind == 'mono':
        f = lambda y, x: x ** p[0] * y ** p[1]
    elif kind == 'exp':
        f = lambda y, x: p * y
    elif kind == 'sin':
        f = lambda y, x: math.sin(x) * y + math.cos(3 * y)
    else:
        Am = A([[.3, -1.], [1.2, -.4]])
        f = lambda y, x: Am.dot(y) + x * A([1., -1.])
        y0 = A([y0, 1.])
    k1 = f(y0, x0)
    k2 = f(y0 + dx / 2 * k1, x0 + dx / 2)
    k3 = f(y0 + dx / 2 * k2, x0 + dx / 2)
    k4 = f(y0 + dx * k3, x0 + dx)
    w = y0 + dx * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    keep = np.array(y0, copy=True)
    g = runge_kutta4(y0, x0, dx, f)
    if not engine.close(g, w, 1e-12, 1e-12):
        return ('classical 4th order step', w, g), None
    if kind == 'exp':
        t = p * dx
        if not engine.close(g, y0 * (1 + t + t * t / 2 + t ** 3 / 6 + t ** 4 / 24), 1e-12, 1e-12):
            return ('fourth order for y\'=cy', None, g), None
    if kind == 'mono' and p[1] == 0 and p[0] <= 3:
        ex = y0 + ((x0 + dx) ** (p[0] + 1) - x0 ** (p[0] + 1)) / (p[0] + 1)
        if not engine.close(g, ex, 1e-12, 1e-12):
            return ('exact for cubic right-hand sides', ex, g), None
    if not (np.ravel(keep) == np.ravel(y0)).all():
        return ('argument modified', keep, y0), None
    return None, tuple(np.ravel(w))


# ------------------------------------------------------------- copy_states / compare_kf

def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def numeric(v):
    try:
        a = np.asarray(v)
        return a.dtype.kind in 'fiub'
    except Exception:
        return False


def differing(a, b, tol):
    """names that must be reported / may be reported"""
    va, vb = public(a), public(b)
    must, may = set(), set()
    for k in set(va) & set(vb):
        p, q = va[k], vb[k]
        if numeric(p) and numeric(q):
            p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)
            if p.shape != q.shape:
                try:
                    np.broadcast(p, q)
                    may.add(k)              # numpy would broadcast
                except ValueError:
                    must.add(k)
                continue
            d = np.abs(p - q)
            fin = np.isfinite(p) & np.isfinite(q)
            if not fin.all():
                may.add(k)
            elif (d > 1.01 * (tol[1] + tol[0] * np.maximum(np.abs(p), np.abs(q)))).any():
                must.add(k)
            elif (d > .99 * (tol[1] + tol[0] * np.minimum(np.abs(p), np.abs(q)))).any():
                may.add(k)
        elif (p is None) != (q is None) and (numeric(p) or numeric(q)):
            must.add(k)
        elif p is q or (p is None and q is None):
            pass
        elif isinstance(p, np.ndarray) and isinstance(q, np.ndarray) and p.dtype == object and q.dtype == object and p.shape == q.shape and \
                all(r is None for r in p.ravel()) and all(r is None for r in q.ravel()):
            pass
        elif isinstance(p, np.ndarray) and isinstance(q, np.ndarray) and (p.dtype == object) != (q.dtype == object):
            must.add(k)
        else:
            may.add(k)
    return must, may


class Copies(engine.Model):
    """two filters of one class"""
    rtol, atol = 1e-12, 1e-13

    def __init__(self, e, depth, ops):
        self.e, self.b, self.name, self.depth = e, e.m, e.m.name, depth
        self.ops = [('a', o) for o in ops] + [('b', o) for o in ops[-1:]] + [('copy', 'ab'), ('copy', 'ba')]
        self.d = zoo.Diff(e, depth)

    def init(self):
        return (self.b.init(), ()), (self.b.init(), ())

    def step(self, st, op):
        a, b = st
        if op[0] == 'copy':
            a, b = (a, a) if op[1] == 'ab' else (b, b)
        else:
            w = a if op[0] == 'a' else b
            q = self.b.step(w[0], op[1])
            if q is None:
                return None
            w = (q[0], w[1] + (op[1],))
            a, b = (w, b) if op[0] == 'a' else (a, w)
        e = {'compare_kf': lambda v: v}
        for n, w in (('a', a), ('b', b)):
            r = self.d.ran(w[1])
            if isinstance(r, zoo.Failed):
                e['alone'] = lambda v, r=r: 'run alone raises %r' % (r.e,)
            elif not all(np.isfinite(A(v)).all() for v in r.values()):
                return None
            else:
                e.update({n + ' ' + k: v for k, v in r.items()})
        return (a, b), e

    def fresh(self):
        c = engine.Ctx()
        c.a, c.b = self.b.fresh(), self.b.fresh()
        c._given = c.a._given
        c.k = sum(map(ord, self.name))
        return c

    def do(self, c, op):
        from filterpy.common import copy_states, compare_kf
        r = {'alone': 0, 'compare_kf': None}
        if op[0] == 'copy':
            s, d = (c.a, c.b) if op[1] == 'ab' else (c.b, c.a)
            keep = zoo.estimate(self.e, s)
            copy_states(d.o, s.o)
            for k, v in s.__dict__.items():             # driver state outside the filter
                if k not in ('o', '_given', '_held'):
                    setattr(d, k, list(v) if isinstance(v, list) else v)
            d._held[:] = []
            must, may = differing(s.o, d.o, (0, 0))
            if must:
                r['compare_kf'] = 'after copying these differ: %r' % sorted(must)
            for k, v in vars(s.o).items():
                if isinstance(v, np.ndarray) and isinstance(getattr(d.o, k, None), np.ndarray) and np.shares_memory(v, getattr(d.o, k)):
                    r['compare_kf'] = 'copied %s shares memory' % k
            now = zoo.estimate(self.e, s)
            for k in keep:
                if keep[k].shape != now[k].shape or not (keep[k] == now[k]).all():
                    r['compare_kf'] = 'copying changed the source'
        else:
            w = c.a if op[0] == 'a' else c.b
            self.b.do(w, op[1])
        c.k += 1
        for tol in (((1e-5, 1e-8), (0., .5), (1e-9, 1e-12))[c.k % 3],):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = compare_kf(c.a.o, c.b.o, log=tol[1] == .5, **({} if tol == (1e-5, 1e-8) else dict(rtol=tol[0], atol=tol[1])))
            must, may = differing(c.a.o, c.b.o, tol)
            names = set(got or ())
            if got is not None and not len(got):
                r['compare_kf'] = r['compare_kf'] or 'returned an empty list instead of None'
            if must - names or names - must - may or (got and len(names) != len(got)):
                r['compare_kf'] = r['compare_kf'] or 'compare_kf(%r) reports %r, expected %r (optional %r)' % (tol, got, sorted(must), sorted(may))
            txt = out.getvalue()
            if tol[1] != .5 and txt:
                r['compare_kf'] = r['compare_kf'] or 'prints although log is off'
            if tol[1] == .5 and (bool(txt) != bool(names) or not all(n in txt for n in names)):
                r['compare_kf'] = r['compare_kf'] or 'report does not name the differences'
        for n, w in (('a', c.a), ('b', c.b)):
            for k, v in zoo.estimate(self.e, w).items():
                r[n + ' ' + k] = v
        return r


def models(tier):
    th = tier == 'thorough'
    out = [engine.GridFn('reshape_z', rz_cases, rz), engine.GridFn('inv_diagonal', inv_cases, inv), engine.GridFn('outer_product_sum', ops_cases, outer),
           engine.GridFn('runge_kutta4', rk_cases, rk)]
    ent = [e for e in zoo.entries(shapes=((2, 1), (2, 2), (1, 1)) if th else ((2, 2),)) if e.kind != 'proc'] + [e for e in zoo.others()]
    for e in ent:
        ops = [q for q in e.m.ops if zoo.role(q) == 'p'][-1:] + [q for q in e.m.ops if zoo.role(q) == 'u'][:1]
        if th:
            ops += [q for q in e.m.ops if zoo.role(q) == 'n'][:1]
        if not th and e.name.endswith('1d') and e.kind not in ('kf', 'imm'):
            continue
        out.append(Copies(e, 5 if th else 4, ops))
    return out
