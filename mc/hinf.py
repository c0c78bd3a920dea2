"""H-infinity filter histories.
ops: ('p', u) ('u', z) ('n',) ('set', attr, value) ('q',) -- attr in P F Q H V W x B gamma, V also 's' (a scalar)"""
import numpy as np
from . import engine, refs
from .refs import A


class HI(engine.Model):
    keys = ('x!', 'P!', 'y', 'K', 'V!', 'V_inv!', 'z', 'get_prediction', 'residual_of', 'measurement_of_state')

    def __init__(self, name, s, ops, depth, gamma=.05, ctl=False, vscal=None, lasso=None, F=0, H=0, W=1, zform='col'):
        self.name, self.s, self.ops, self.depth, self.gamma, self.ctl, self.vscal, self.lasso = name, s, ops, depth, gamma, ctl, vscal, lasso
        self.Fi, self.Hi, self.Wi, self.zf = F, H, W, zform

    def lasso_ok(self, w):
        return any(o[0] == 'u' for o in w)

    def mat(self, n, i):
        s = self.s
        if n == 'F':
            return np.eye(s.nx) if i == 'I' else s.F[i]
        if n == 'V':
            return np.eye(1) * i if isinstance(i, float) else s.R[i]
        if n == 'Q':
            return np.zeros((s.nx, s.nx)) if i == 'z' else .2 * s.Q[i]
        if n == 'W':
            return np.zeros((s.nx, s.nx)) if i == 'z' else s.Q[i]
        if n == 'P':
            return s.P1 if i == 1 else s.P0
        if n == 'x':
            return s.x1 if i == 1 else s.x0
        return getattr(s, n)[i]

    def init(self):
        return dict(x=self.s.x0, P=self.s.P0, F=self.mat('F', self.Fi), H=self.s.H[self.Hi], Q=self.mat('Q', 0), W=self.mat('W', self.Wi), V=self.s.R[0] if self.vscal is None else np.eye(1) * self.vscal,
                    B=self.s.B[0], g=self.gamma, y=np.zeros(self.s.nz), K=None, z=np.zeros(self.s.nz))

    def step(self, st, op):
        s = self.s
        t = dict(st)
        if op[0] == 'p':
            t['x'] = st['F'].dot(st['x'])
            if op[1] is not None:
                t['x'] = t['x'] + st['B'].dot(s.u[op[1]])
        elif op[0] == 'u':
            Vi = np.linalg.inv(st['V'])
            if np.linalg.cond(st['P']) > 1e6:
                return None
            J = np.linalg.inv(st['P']) - st['g'] * st['Q'] + st['H'].T.dot(Vi).dot(st['H'])
            if np.linalg.eigvalsh(refs.sym(J)).min() < 1e-2:
                return None                     # no solution of the minimax problem
            Pt = np.linalg.inv(J)
            K = st['F'].dot(Pt).dot(st['H'].T).dot(Vi)
            y = s.z[op[1]] - st['H'].dot(st['x'])
            t.update(x=st['x'] + K.dot(y), P=refs.sym(st['F'].dot(Pt).dot(st['F'].T) + st['W']), K=K, y=y, z=s.z[op[1]])
        elif op[0] == 'set':
            t['g' if op[1] == 'gamma' else op[1]] = op[2] if op[1] == 'gamma' else self.mat(op[1], op[2])
        if np.abs(t['x']).max() > 1e4 or np.abs(t['P']).max() > 1e4:
            return None
        c = lambda v: v.reshape(-1, 1)
        e = {'x!': c(t['x']), 'P!': t['P'], 'y': t['y'], 'V!': t['V'], 'V_inv!': np.linalg.inv(t['V']), 'z': t['z'],
             'get_prediction': np.concatenate([t['F'].dot(t['x']), t['F'].dot(t['x']) + (t['B'].dot(s.u[3]) if self.ctl else 0)]),
             'residual_of': s.z[3] - t['H'].dot(t['x']), 'measurement_of_state': t['H'].dot(s.x1)}
        if t['K'] is not None:
            e['K'] = t['K']
        return t, e

    def fresh(self):
        from filterpy.hinfinity import HInfinityFilter
        c = engine.Ctx()
        st = self.init()
        o = c.o = HInfinityFilter(self.s.nx, self.s.nz, self.s.nu if self.ctl else 0, self.gamma)
        o.x = c.give(self.s.x0.reshape(-1, 1).copy(), 'initial x')
        for n in 'PFQHWV':
            v = st[n].copy()
            setattr(o, n, self.vscal if n == 'V' and self.vscal is not None else c.give(v, n))
        if self.ctl:
            o.B = c.give(st['B'].copy(), 'B')
        return c

    def zarg(self, v):
        return v.reshape(-1, 1).copy() if self.zf == 'col' else float(v[0])

    def do(self, c, op):
        s, o = self.s, c.o
        if op[0] == 'p':
            if op[1] is None:
                o.predict()
            else:
                o.predict(c.give(s.u[op[1]].reshape(-1, 1).copy(), 'u'))
        elif op[0] == 'u':
            o.update(c.give(self.zarg(s.z[op[1]]), 'z'))
        elif op[0] == 'n':
            o.update(None)
        elif op[0] == 'set':
            n, i = op[1:]
            if n == 'gamma':
                o.gamma = i
            elif n == 'V' and isinstance(i, float):
                o.V = i
            else:
                v = self.mat(n, i)
                setattr(o, n, c.give(v.reshape(-1, 1).copy() if n == 'x' else v.copy(), 'assigned ' + n))
        r = {n: getattr(o, n) for n in 'xPyKVz'}
        r.update({n + '!': r[n] for n in 'xPV'})
        r['V_inv!'] = o._V_inv
        u = s.u[3].reshape(-1, 1)
        r['get_prediction'] = np.concatenate([np.ravel(o.get_prediction()), np.ravel(o.get_prediction(c.give(u.copy(), 'u')) if self.ctl else o.get_prediction())])
        r['residual_of'] = o.residual_of(c.give(self.zarg(s.z[3]), 'z'))
        r['measurement_of_state'] = o.measurement_of_state(c.give(s.x1.reshape(-1, 1).copy(), 'x'))
        for n in 'xPKy':
            c.hold(getattr(o, n), n)
        return r
