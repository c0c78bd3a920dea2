"""g-h, fading-memory polynomial and least-squares filters as matrix recursions"""
import math
import numpy as np
from . import engine
from .refs import A


def phi(n, dt):
    """exact Taylor transition of a state (x, x', x'') of length n"""
    return A([[dt ** (j - i) / math.factorial(j - i) if j >= i else 0. for j in range(n)] for i in range(n)])


def gains(n, dt, g, h=None, k=None):
    return A([g, (h or 0.) / dt, 2. * (k or 0.) / dt ** 2][:n])


def lyap(M, W):
    n = len(M)
    return np.linalg.solve(np.eye(n * n) - np.kron(M, M), W.ravel()).reshape(n, n)


def stable(M):
    return np.abs(np.linalg.eigvals(M)).max() < 0.97


class Poly(engine.Model):
    """kind: 'order' (GHFilterOrder), 'gh', 'ghk', 'mem' (FadingMemoryFilter)
    ops: ('u', z, overrides) with overrides a tuple of (name, value); ('set', attr, value)"""

    def __init__(self, name, kind, order, dt, x0, g, ops, depth, zs, lasso=None, comps=None, intx=False):
        self.name, self.kind, self.order, self.dt, self.g = name, kind, order, dt, g
        self.ops, self.depth, self.lasso, self.zs = ops, depth, lasso, zs
        self.n = order + 1
        self.x0 = x0               # list of n values (scalars) or of n vectors
        self.comps = comps         # None: scalar signal; else number of vector components
        self.intx = intx

    def par(self, d, n=None):
        v = dict(g=self.g[0], h=self.g[1] if len(self.g) > 1 else None, k=self.g[2] if len(self.g) > 2 else None)
        if d:
            v.update(d)
        return v

    def init(self):
        X = np.array([np.atleast_1d(A(v)) for v in self.x0])      # n x comps
        return dict(X=X, par=self.par(None), dt=self.dt)

    def step(self, s, op):
        t = dict(s)
        if op[0] == 'set':
            if op[1] == 'dt':
                t['dt'] = op[2]
            else:
                t['par'] = dict(s['par'], **{op[1]: op[2]})
            return t, {}
        if op[0] == 'q':
            return t, {}
        p = dict(s['par'])
        p.update(dict(op[2]))
        z = np.atleast_1d(A(self.zs[op[1]]))
        F = phi(self.n, s['dt'])
        pr = F.dot(s['X'])
        y = z - pr[0]
        if self.kind == 'mem':
            b = p['g']
            K = [A([1 - b]), A([1 - b ** 2, (1 - b) ** 2 / s['dt']]),
                 A([1 - b ** 3, 1.5 * (1 - b) ** 2 * (1 + b) / s['dt'], (1 - b) ** 3 / s['dt'] ** 2])][self.order]
        else:
            K = gains(self.n, s['dt'], p['g'], p['h'], p['k'])
        t['X'] = pr + np.outer(K, y)
        e = {'x': t['X'][0]}
        if self.kind in ('order', 'mem'):
            e = {'x!': t['X'].ravel()}
            if self.kind == 'order':
                e.update(y=y, z=z)
        else:
            e.update(dx=t['X'][1], y=y, z=z, x_prediction=pr[0], dx_prediction=pr[1], ret=np.concatenate([t['X'][0], t['X'][1]]))
            if self.kind == 'ghk':
                e.update(ddx=t['X'][2], ddx_prediction=pr[2])
        return t, e

    def fresh(self):
        c = engine.Ctx()
        x0 = [(v if self.comps is None else c.give(A(v), 'x0')) for v in self.x0]
        if self.intx and self.comps is None:
            x0 = [int(v) for v in x0]
        if self.kind == 'order':
            from filterpy.gh import GHFilterOrder
            a = c.give(np.array(x0) if self.order or not self.intx else np.array(x0), 'x0') if any(x0[1:]) or not self.intx else x0[0]
            c.o = GHFilterOrder(a, self.dt, self.order, *self.g)
        elif self.kind == 'mem':
            from filterpy.memory import FadingMemoryFilter
            a = c.give(np.array(x0), 'x0') if any(x0[1:]) else x0[0]
            c.o = FadingMemoryFilter(a, self.dt, self.order, self.g[0])
        elif self.kind == 'gh':
            from filterpy.gh import GHFilter
            c.o = GHFilter(x0[0], x0[1], self.dt, *self.g)
        else:
            from filterpy.gh import GHKFilter
            c.o = GHKFilter(x0[0], x0[1], x0[2], self.dt, *self.g)
        return c

    def do(self, c, op):
        f = c.o
        if op[0] == 'set':
            setattr(f, 'beta' if self.kind == 'mem' and op[1] == 'g' else op[1], op[2])
            return {}
        if op[0] == 'q':
            repr(f)
            if self.kind in ('gh', 'ghk'):
                f.VRF()
                f.VRF_prediction()
                if self.comps is None:
                    f.batch_filter([1., 2.])
                    f.batch_filter([1., 2.], True)
            return {}
        z = self.zs[op[1]]
        z = z if self.comps is None else c.give(A(z), 'z')
        r = f.update(z, **dict(op[2]))
        o = {'x': f.x, 'x!': f.x}
        for k in ('dx', 'ddx', 'y', 'z', 'x_prediction', 'dx_prediction', 'ddx_prediction'):
            if hasattr(f, k):
                o[k] = getattr(f, k)
        if self.kind in ('gh', 'ghk'):
            o['ret'] = np.concatenate([np.atleast_1d(A(r[0])), np.atleast_1d(A(r[1]))])
            for k in ('x', 'dx', 'ddx', 'x_prediction', 'dx_prediction'):
                if k in o:
                    c.hold(o[k], k)
        return o


class LSQ(engine.Model):
    """LeastSquaresFilter: ('u', z) / ('reset',) / ('q',)"""

    def __init__(self, name, order, dt, sigma, zs, depth, lasso=None):
        self.name, self.order, self.dt, self.sigma, self.zs = name, order, dt, sigma, zs
        self.depth, self.lasso = depth, lasso
        self.ops = [('u', i) for i in range(len(zs))] + [('reset',), ('q',)]

    def lasso_ok(self, w):
        return any(o[0] == 'u' for o in w)

    def init(self):
        return ()

    def fit(self, zz):
        n = len(zz)
        t = (np.arange(n) - (n - 1)) * self.dt          # latest sample at 0
        V = np.array([[ti ** j / math.factorial(j) for j in range(self.order + 1)] for ti in t])
        sc = A([self.dt ** j for j in range(self.order + 1)])
        W = V / sc
        c, _, _, _ = np.linalg.lstsq(W, A(zz), rcond=None)
        cov = np.linalg.inv(W.T.dot(W))
        return c / sc, np.sqrt(np.diag(cov)) / sc * self.sigma

    def step(self, s, op):
        if op[0] == 'reset':
            return (), {'n': 0, 'x!': np.zeros(self.order + 1)}
        if op[0] == 'q':
            t = s
        else:
            t = s + (self.zs[op[1]],)
        e = {'n': len(t)}
        if len(t) > self.order:
            x, std = self.fit(t)
            e['x!'] = x
            e['err'] = std
            e['std'] = std
            if op[0] == 'u':
                e['ret'] = x
                if len(s) > self.order:
                    px, _ = self.fit(s)
                    e['y'] = t[-1] - sum(px[j] * self.dt ** j / math.factorial(j) for j in range(self.order + 1))
        else:
            e['err'] = lambda v: True if np.isfinite(v).all() else 'not finite'
        return t, e

    def fresh(self):
        from filterpy.leastsq import LeastSquaresFilter
        c = engine.Ctx()
        c.o = LeastSquaresFilter(self.dt, self.order, self.sigma)
        return c

    def do(self, c, op):
        o = {}
        if op[0] == 'u':
            o['ret'] = c.o.update(self.zs[op[1]]).copy()
        elif op[0] == 'reset':
            c.o.reset()
        else:
            repr(c.o)
        e, s = c.o.errors()
        o.update({'x!': c.o.x, 'n': c.o.n, 'err': e, 'std': s, 'y': c.o.y})
        return o
