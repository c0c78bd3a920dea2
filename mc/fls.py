"""fixed-lag smoother.  ops: ('u', z, u) ('q',) ('set', attr, i)"""
import numpy as np
from . import engine, refs
from .refs import A


class FL(engine.Model):
    rtol = 1e-7
    atol = 1e-9
    strict = False          # True: demand the optimal fixed-lag estimates (known finding)

    def __init__(self, name, s, N, ops, depth, xform='col', ctl=False, zf='col', lasso=None):
        self.name, self.s, self.N, self.ops, self.depth, self.xform, self.ctl, self.zf, self.lasso = name, s, N, ops, depth, xform, ctl, zf, lasso

    def lasso_ok(self, w):
        return any(o[0] == 'u' for o in w)

    def init(self):
        s = self.s
        return dict(x=s.x0, P=s.P0, est=(), hist=(), F=s.F[0], Q=s.Q[0], H=s.H[0], R=s.R[0])

    def step(self, st, op):
        s, N = self.s, self.N
        t = dict(st)
        if op[0] == 'set':
            t[op[1]] = st[op[1]] * op[2] if op[3:] == ('mul',) else getattr(s, op[1])[op[2]]
        if op[0] != 'u':
            return t, {'x': st['x'], 'P!': st['P'], 'n': len(st['est'])}
        _, z, u = op
        F, Q, H, R = st['F'], st['Q'], st['H'], st['R']
        Bu = None if u is None else s.B[0].dot(s.u[u])
        xp, Pp = refs.predict(st['x'], st['P'], F, Q, Bu)
        zv = s.z[z]
        x, P, y, S, K = refs.update(xp, Pp, zv, H, R)
        t['x'], t['P'] = x, P
        k = len(st['est'])
        est = list(st['est'])
        if k < N:
            est.append(x)
        else:
            est.append(xp)
            G = H.T.dot(np.linalg.inv(S))
            L = (F - K.dot(H)).T
            C = P
            for i in range(N):
                est[k - i] = est[k - i] + C.dot(G).dot(y)
                C = C.dot(L)
        t['est'] = tuple(est)
        t['hist'] = st['hist'] + ((F, Q, H, R, zv, Bu),)
        e = {'x': x, 'P!': P, 'y': y, 'S': S, 'n': k + 1, 'final': True, 'batch': True, 'xhat': True}
        legacy = A(est)

        def accept(v, h=t['hist'], legacy=legacy, k=k):
            v = A(v).reshape(k + 1, -1)
            if v.shape == legacy.shape and engine.close(v, legacy, 1e-7, 1e-9) and not self.strict:
                return None
            opt = self.optimal(h)
            if engine.close(v, opt, 1e-7, 1e-9):
                return None
            return 'fixed-lag estimates should be %r (optimal)' % (opt.tolist(),)
        e['est'] = accept
        return t, e

    def optimal(self, h):
        """estimate j given the measurements up to min(last, j + N - 1); with fewer than N+1 measurements: filtered values"""
        s, n = self.s, len(h)
        out = []
        xp, Pp = refs.predict(s.x0, s.P0, h[0][0], h[0][1], h[0][5])
        for j in range(n):
            last = n - 1 if n - 1 < j + self.N else j + self.N - 1
            if last < self.N:
                last = j
            hh = h[:last + 1]
            xs, _ = refs.smooth_joint(xp, Pp, [q[0] for q in hh], [q[1] for q in hh], [(q[4], q[2], q[3]) for q in hh],
                                      [0 if q[5] is None else q[5] for q in hh])
            out.append(xs[j])
        return A(out)

    def make(self, c):
        from filterpy.kalman import FixedLagSmoother
        s = self.s
        o = FixedLagSmoother(s.nx, s.nz, N=self.N)
        o.x = c.give(s.x0.reshape(-1, 1).copy() if self.xform == 'col' else s.x0.copy(), 'initial x')
        for n, v in (('P', s.P0), ('F', s.F[0]), ('Q', s.Q[0]), ('H', s.H[0]), ('R', s.R[0])):
            setattr(o, n, c.give(v.copy(), n))
        if self.ctl:
            o.B = c.give(s.B[0].copy(), 'B')
        return o

    def fresh(self):
        c = engine.Ctx()
        c.o = self.make(c)
        c.zs, c.us = [], []
        c.const = True
        return c

    def zarg(self, c, i):
        v = self.s.z[i]
        if self.zf == 'scalar':
            return float(v[0])
        return c.give(v.reshape(-1, 1).copy() if self.xform == 'col' else v.copy(), 'z')

    def do(self, c, op):
        s, o = self.s, c.o
        r = {}
        if op[0] == 'u':
            before = [e.copy() for e in o.xSmooth]
            z = self.zarg(c, op[1])
            u = None
            if op[2] is not None:
                u = s.u[op[2]]
                u = c.give(u.reshape(-1, 1).copy() if self.xform == 'col' else u.copy(), 'u')
            o.smooth(z, u) if u is not None else o.smooth(z)
            c.zs.append(z)
            c.us.append(u)
            k = len(c.zs) - 1
            r['final'] = all((a == b).all() for a, b in zip(before[:max(0, k - self.N + 1)], o.xSmooth))
            r['y'], r['S'] = o.y, o.S
            r['est'] = [np.ravel(e) for e in o.xSmooth]
            if c.const and (all(q is None for q in c.us) or all(q is not None for q in c.us)):
                b = self.make(c)
                us = c.us if c.us[0] is not None else None
                for _ in (0, 1):            # batch smoothing leaves the object as it was
                    xs, xh = b.smooth_batch(c.give(list(c.zs), 'zs'), self.N, us) if us else b.smooth_batch(c.give(list(c.zs), 'zs'), self.N)
                    r['batch'] = engine.close(xs, A([np.ravel(e) for e in o.xSmooth]), 1e-9, 1e-12) and len(xs) == k + 1
                    r['xhat'] = engine.close(xh[-1], o.x, 1e-9, 1e-12) and np.shape(xh[-1]) == np.shape(o.x)
                    if not (r['batch'] and r['xhat']):
                        break
            else:
                r['batch'] = r['xhat'] = True
            c.hold(o.xSmooth[max(0, k - self.N)], 'smoothed estimate')
        elif op[0] == 'q':
            repr(o)
        elif op[0] == 'set':
            c.const = False
            how = op[3] if len(op) > 3 else None
            c.assign(o, op[1], op[2] if how == 'mul' else getattr(s, op[1])[op[2]], how)
        r.update({'x': o.x, 'P!': o.P, 'n': len(o.xSmooth)})
        c.hold(o.x, 'x')
        c.hold(o.P, 'P')
        return r
