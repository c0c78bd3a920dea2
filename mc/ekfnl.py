"""nonlinear extended Kalman filter histories"""
import numpy as np
from . import engine, refs
from .lin import Lin


ROWS = 8


def hvec(x, a=1., b=0.):
    """measurement: range / bearing like functions of the first components, with arguments"""
    p, q = x[0], (x[1] if len(x) > 1 else 0.5)
    return np.array([np.sqrt((p + 2.) ** 2 + (q + 3.) ** 2) * a + b, np.arctan2(q + 3., p + 2.) + b,
                     np.sin(p) * a + q * q * .2 + b] + [.1 * a * x[k % len(x)] ** 2 + np.cos(x[(k + 1) % len(x)]) + b * k for k in range(3, ROWS)])


def jac(x, a=1., b=0.):
    n = len(x)
    p, q = x[0] + 2., (x[1] if n > 1 else 0.5) + 3.
    r2 = p * p + q * q
    r = np.sqrt(r2)
    J = np.zeros((ROWS, n))
    J[0, 0] = a * p / r
    J[1, 0] = -q / r2
    J[2, 0] = np.cos(p - 2.) * a
    if n > 1:
        J[0, 1] = a * q / r
        J[1, 1] = p / r2
        J[2, 1] = 2 * (q - 3.) * .2
    for k in range(3, ROWS):
        J[k, k % n] += .2 * a * x[k % n]
        J[k, (k + 1) % n] -= np.sin(x[(k + 1) % n])
    return J


def wrap(d):
    d = np.array(d, dtype=float)
    d[0] = (d[0] + 2.) % 4. - 2.       # first component lives on a circle of length 4
    return d


VARIANTS = {                     # (Jacobian args, hx args)
    'plain': ((), ()),
    'tuple': ((1.3, .2), (1.3, .2)),
    'bare': (1.3, 0.7),          # non-tuple arguments
    'zero': ((0., 0.), (0., .4)),
    'bzero': (0., 0.),           # falsy arguments
    'diff': ((0.8,), (1.1, -.3)),
}


class EKFNon(Lin):
    keys = ('x!', 'P!', 'y', 'S', 'K')

    def hvec(self, x, *a):
        return hvec(x, *a)

    def jac(self, x, *a):
        return jac(x, *a)

    def wrap(self, d):
        return wrap(d)

    def fresh(self):
        from filterpy.kalman import ExtendedKalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = ExtendedKalmanFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        Lin.setup(self, c.o, c)
        del c.o.H
        return c

    def tup(self, v):
        return v if isinstance(v, tuple) else (v,)

    def upd(self, st, z, variant, R, res):
        s = self.sys
        ja, ha = VARIANTS[variant]
        H = self.jac(st['x'], *self.tup(ja))[:s.nz]
        h = self.hvec(st['x'], *self.tup(ha))[:s.nz]
        y = 0 * h if z == 'x' else s.z[z] - h
        if res:
            y = self.wrap(y)
        Rm = st['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R]
        x, P, y, S, K = refs.update(st['x'], st['P'], y + H.dot(st['x']), H, Rm)
        t = dict(st, x=x, P=P, y=y, S=S, K=K, xq=x, Pq=P, last='u')
        return t

    def step(self, st, op):
        if op[0] == 'u':
            t = self.upd(st, *op[1:])
        elif op[0] == 'pu':
            t, _ = Lin.step(self, st, ('p', op[3], None, None, None))
            t = t if op[1] is None else self.upd(t, op[1], op[2], None, False)
        else:
            return Lin.step(self, st, op)
        return t, self.expect(st, op, t)

    def do(self, c, op):
        s = self.sys
        col = self.xform == 'col'

        def J(x, *a):
            assert np.shape(x) == ((s.nx, 1) if col else (s.nx,)), 'Jacobian called with the wrong state shape'
            return self.jac(np.ravel(x), *a)[:s.nz]

        def h(x, *a):
            v = self.hvec(np.ravel(x), *a)[:s.nz]
            return v.reshape(-1, 1) if col else v

        def res(a, b):
            return self.wrap(np.subtract(a, b))
        k = op[0]
        zf = lambda i: None if i is None else c.give(s.z[i].reshape(-1, 1).copy() if col else s.z[i].copy(), 'z')
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            _, z, var, R, rs = op
            kw = {}
            ja, ha = VARIANTS[var]
            if var != 'plain':
                kw.update(args=ja, hx_args=ha)
            if R is not None:
                kw['R'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R].copy(), 'R')
            if rs:
                kw['residual'] = res
            if z == 'x':
                v = c.give(h(c.o.x.copy(), *self.tup(ha)), 'z')
            else:
                v = zf(z)
            c.o.update(v, J, h, **kw)
        elif k == 'pu':
            _, z, var, u = op
            kw = {}
            ja, ha = VARIANTS[var]
            if var != 'plain':
                kw.update(args=ja, hx_args=ha)
            if u is not None:
                kw['u'] = c.give(self.us(u), 'u')
            c.o.predict_update(zf(z), J, h, **kw)
        elif k == 'n':
            c.o.update(None, J, h)
        elif k == 'set':
            self.do_set(c, op)
        return self.observe(c, op)
