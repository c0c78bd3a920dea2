"""ensemble Kalman filter: the random draws are answered by the explorer.
ops: ('p', pat) ('u', z, R, pat) ('n',) ('set', attr, i) ('q',)  -- pat selects the noise answers of that operation"""
import numpy as np
from . import engine, refs, rng
from .refs import A


class EN(engine.Model):
    rtol = 1e-7
    atol = 1e-9
    inv = None                  # the user's inverse function

    def __init__(self, name, prob, N, pats, ops, depth, dt=.5, lasso=None, init_pat=0):
        self.name, self.pr, self.N, self.pats, self.ops, self.depth, self.dt, self.lasso = name, prob, N, pats, ops, depth, dt, lasso
        self.ip = init_pat

    def lasso_ok(self, w):
        k = [o[0] for o in w]
        return 'u' in k and 'p' in k

    def noise(self, pat):
        """pat: index into self.pats; pats[i](draw, component) -> standard normal"""
        return self.pats[pat]

    def draws(self, pat, cov):
        f = self.noise(pat)
        L = np.linalg.cholesky(cov) if np.any(cov) else np.zeros_like(cov)
        return A([L.dot(A([f(i, j) for j in range(len(cov))])) for i in range(self.N)])

    def init(self):
        s = self.pr.s
        S = s.x0 + self.draws(self.ip, s.P0)
        return dict(S=S, x=s.x0, P=s.P0, Q=s.Q[0], R=s.R[0], h=self.pr.h)

    def step(self, st, op):
        pr, s, N = self.pr, self.pr.s, self.N
        t = dict(st)
        k = op[0]
        e = {}
        if k == 'p':
            S = A([pr.f(q.copy(), self.dt) for q in st['S']]) + self.draws(op[1], st['Q'])
            x = S.sum(axis=0) / N
            P = sum(np.outer(q - x, q - x) for q in S) / (N - 1)
            t.update(S=S, x=x, P=P)
            e = dict(x_prior=x, P_prior=P, draws=self.draws(op[1], st['Q']), cov=np.tile(st['Q'], (N, 1, 1)))
        elif k == 'u':
            _, z, R, pat = op
            R = st['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R]
            Z = A([pr.h(q.copy()) for q in st['S']])
            zm = Z.sum(axis=0) / N
            S_ = sum(np.outer(q - zm, q - zm) for q in Z) / (N - 1) + R
            if self.inv is None and (np.linalg.cond(S_) > 1e6 or np.abs(S_).max() < 1e-6):
                return None
            C = sum(np.outer(a - st['x'], b - zm) for a, b in zip(st['S'], Z)) / (N - 1)
            K = np.linalg.solve(S_.T, C.T).T if self.inv is None else C.dot(self.inv(S_))
            v = self.draws(pat, R)
            S = A([a + K.dot(s.z[z] + n - b) for a, b, n in zip(st['S'], Z, v)])
            t.update(S=S, x=S.sum(axis=0) / N, P=st['P'] - K.dot(S_).dot(K.T))
            e = dict(x_post=t['x'], P_post=t['P'], K=K, S=S_, SI=(self.inv or np.linalg.inv)(S_), z=s.z[z], draws=v, cov=np.tile(R, (N, 1, 1)))
        elif k == 'set':
            t[op[1]] = st[op[1]] * op[2] if op[3:] == ('mul',) else getattr(s, op[1])[op[2]]
        elif k == 'init':
            t['S'] = s.x1 + self.draws(op[1], s.P1)
            t['x'], t['P'] = s.x1, s.P1
            e = dict(draws=self.draws(op[1], s.P1), cov=np.tile(s.P1, (N, 1, 1)))
        if np.abs(t['S']).max() > 1e3:
            return None
        e.update({'x': t['x'], 'P!': t['P'], 'sigmas!': t['S']})
        return t, e

    def script(self, pat):
        s = rng.Script(uniforms=[.5], normals=self.noise(pat))
        rng.install(s)
        return s

    def fresh(self):
        from filterpy.kalman import EnsembleKalmanFilter
        pr, s = self.pr, self.pr.s
        c = engine.Ctx()
        self.script(self.ip)
        try:
            c.o = EnsembleKalmanFilter(x=c.give(s.x0.copy(), 'initial x'), P=c.give(s.P0.copy(), 'initial P'), dim_z=s.nz, dt=self.dt,
                                       N=self.N, hx=pr.h, fx=pr.f)
        finally:
            rng.install(None)
        if self.inv is not None:
            c.o.inv = self.inv
        c.o.Q = c.give(s.Q[0].copy(), 'Q')
        c.o.R = c.give(s.R[0].copy(), 'R')
        return c

    def do(self, c, op):
        s = self.pr.s
        k = op[0]
        sc = None
        try:
            if k == 'p':
                sc = self.script(op[1])
                c.o.predict()
            elif k == 'u':
                _, z, R, pat = op
                sc = self.script(pat)
                zz = c.give(s.z[z].copy(), 'z')
                if R is None:
                    c.o.update(zz)
                else:
                    c.o.update(zz, R=refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R].copy(), 'R argument'))
            elif k == 'n':
                c.o.update(None)
            elif k == 'set':
                how = op[3] if len(op) > 3 else None
                c.assign(c.o, op[1], op[2] if how == 'mul' else getattr(s, op[1])[op[2]], how)
            elif k == 'init':
                sc = self.script(op[1])
                c.o.initialize(c.give(s.x1.copy(), 'x'), c.give(s.P1.copy(), 'P'))
            elif k == 'q':
                repr(c.o)
        finally:
            rng.install(None)
        r = {n: getattr(c.o, n.rstrip('!')) for n in ('x', 'P!', 'sigmas!', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'S', 'SI', 'z')}
        r['sigmas!'] = r['sigmas!'].copy()
        if sc is not None:
            r['draws'] = A([q[2] - q[0] for q in sc.log])
            r['cov'] = A([q[1] for q in sc.log])
        c.hold(c.o.x, 'x')
        c.hold(c.o.P, 'P')
        return r
