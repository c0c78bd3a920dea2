import itertools
import numpy as np
from mc import engine, refs
from mc.engine import GridFn
from mc.refs import A, Sys
from mc.sp import make_points

ID = 'P40'
LEVEL = 'model_checking'
BOUND = ('linear (both state forms, object and procedural), extended (both state forms) and unscented filters (4 point schemes) of dim_x 1-3 and own measurement size 1-3 with three further sensors of 1, 2 and 3 rows: every history over '
         '{prediction, own update, own update with scalar noise, update by each sensor with its noise matrix or a scalar noise, missing measurement} up to depth 4-5 (quick) / 6 (thorough) and periodic histories of up to 24 operations; '
         'after every operation estimate, residual, system uncertainty, gain, records, likelihoods, (and after missing measurements and the largest sensor the printed form and a saver entry) are read; batch filtering with every assignment of the sensors to 4 steps')
ASSUMPTIONS = ['an overriding measurement matrix comes with a column measurement of its size (as documented)', 'likelihoods after a missing measurement are read but not compared']


class Sensors(Sys):
    """sensor 0 is the filter's own; sensors 1..3 have 1, 2 and 3 rows"""

    def __init__(self, nx, nz, var):
        Sys.__init__(self, nx, nz, var=var)
        self.sen = [(self.H[0], self.R[0], self.z[:4])]
        for m in (1, 2, 3):
            q = Sys(nx, m, var=var + 50)
            self.sen.append((q.H[1], q.R[1], q.z[:4]))


class Mix(engine.Model):
    rtol = 1e-6
    atol = 1e-8

    def __init__(self, name, s, kind, ops, depth, xform='col', fam=None, lasso=None):
        self.name, self.s, self.kind, self.ops, self.depth, self.xf, self.fam, self.lasso = name, s, kind, ops, depth, xform, fam, lasso

    def lasso_ok(self, w):
        return any(o[0] == 'p' for o in w) and any(o[0] == 'u' for o in w)

    def init(self):
        return dict(x=self.s.x0, P=self.s.P0, z=np.zeros(self.s.nz), fresh=False, last=None)

    # ops: ('p',) ('u', sensor, R) ('n',)     R: 'own' (only sensor 0), 'm', 's'
    def step(self, st, op):
        s = self.s
        t = dict(st)
        if op[0] == 'p':
            t['x'], t['P'] = refs.predict(st['x'], st['P'], s.F[0], s.Q[0])
            t['fresh'] = True
            e = {'x': t['x'], 'P': t['P'], 'x_prior': t['x'], 'P_prior': t['P']}
        elif op[0] == 'n':
            e = {'x': t['x'], 'P': t['P'], 'x_post': t['x'], 'P_post': t['P'], 'z': lambda v: None if v is None else 'z is %r after a missing measurement' % (v,)}
        else:
            if self.kind == 'ukf' and not st['fresh']:
                return None
            t['fresh'] = False
            H, R, zs = s.sen[op[1]]
            if op[2] == 's':
                R = s.sr * np.eye(len(H))
            elif op[2] == 'm' and op[1] == 0:
                R = s.R[1]
            z = zs[1 if op[2] == 's' else 0]
            t['x'], t['P'], y, S, K = refs.update(st['x'], st['P'], z, H, R)
            e = {'x': t['x'], 'P': t['P'], 'x_post': t['x'], 'P_post': t['P'], 'y': y, 'S': S, 'K': K, 'z': lambda v, z=z: None if v is not None and np.allclose(v, z) else 'z is %r, should be %r' % (v, z),
                 'SI': np.linalg.inv(S), 'log_likelihood': refs.gauss_logpdf(y, S), 'mahalanobis': refs.maha(y, S), 'likelihood': np.exp(refs.gauss_logpdf(y, S)), 'read': lambda v: v}
        if self.kind == 'proc':
            e = {k: v for k, v in e.items() if k in ('x', 'P', 'y', 'S', 'K', 'log_likelihood')}
        else:
            e['read'] = lambda v: v
        return t, e

    def form(self, v):
        return v.reshape(-1, 1).copy() if self.xf == 'col' else v.copy()

    def fresh(self):
        from filterpy.kalman import KalmanFilter, ExtendedKalmanFilter, UnscentedKalmanFilter
        from filterpy.common import Saver
        s, c = self.s, engine.Ctx()
        if self.kind == 'proc':
            c.x, c.P = self.form(s.x0), s.P0.copy()
            return c
        if self.kind == 'ukf':
            o = UnscentedKalmanFilter(s.nx, s.nz, 1., lambda x, H=s.sen[0][0]: H.dot(x), lambda x, dt: s.F[0].dot(x), make_points(self.fam, s.nx))
            o.x = c.give(s.x0.copy(), 'x')
        else:
            o = (KalmanFilter if self.kind == 'kf' else ExtendedKalmanFilter)(s.nx, s.nz)
            o.x = c.give(self.form(s.x0), 'x')
            o.F = c.give(s.F[0].copy(), 'F')
            if self.kind == 'kf':
                o.H = c.give(s.sen[0][0].copy(), 'H')
        o.P, o.Q, o.R = c.give(s.P0.copy(), 'P'), c.give(s.Q[0].copy(), 'Q'), c.give(s.sen[0][1].copy(), 'R')
        c.o = o
        c.sv = Saver(o)
        return c

    def do(self, c, op):
        s, k = self.s, self.kind
        if op[0] == 'u':
            H, R, zs = s.sen[op[1]]
            z = zs[1 if op[2] == 's' else 0]
            H = c.give(H.copy(), 'H override')
            R = None if op[2] == 'own' else s.sr if op[2] == 's' else c.give((s.R[1] if op[1] == 0 else R).copy(), 'R override')
            z = c.give(z.reshape(-1, 1).copy() if k != 'ukf' and self.xf == 'col' or (k in ('kf', 'proc') and op[1]) else z.copy(), 'z')
        if k == 'proc':
            from filterpy.kalman import predict, update
            if op[0] == 'p':
                c.x, c.P = predict(c.x, c.P, s.F[0], s.Q[0])
                return {'x': c.x, 'P': c.P}
            if op[0] == 'n':
                c.x, c.P = update(c.x, c.P, None, s.sen[0][1], s.sen[0][0])
                return {'x': c.x, 'P': c.P}
            c.x, c.P, y, K, S, ll = update(c.x, c.P, z, s.sen[0][1] if R is None else R, H, return_all=True)
            return {'x': c.x, 'P': c.P, 'y': y, 'K': K, 'S': S, 'log_likelihood': ll}
        o = c.o
        if op[0] == 'p':
            o.predict()
        elif op[0] == 'n':
            o.update(None) if k != 'ekf' else o.update(None, None, None)
        elif k == 'kf':
            kw = {} if R is None else {'R': R}
            if op[1]:
                kw['H'] = H
            o.update(z, **kw)
        elif k == 'ekf':
            o.update(z, lambda x: H, lambda x: H.dot(x), **({} if R is None else {'R': R}))
        else:
            kw = {} if R is None else {'R': R}
            if op[1]:
                kw['hx'] = lambda x: H.dot(x)
            o.update(z, **kw)
        c.hold(o.x, 'x')
        c.hold(o.P, 'P')
        r = {n: getattr(o, n) for n in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'S', 'SI', 'y')}
        zz = np.ravel(np.asarray(o.z))
        r['z'] = None if len(zz) == 0 or zz[0] is None else zz.astype(float)
        r['read'] = None
        try:
            for n in ('log_likelihood', 'likelihood', 'mahalanobis'):
                r[n] = getattr(o, n)
            if op[0] == 'n' or op[1:2] == (3,):
                repr(o)
                c.sv.save()
        except Exception as ex:
            if op[0] == 'u' or not isinstance(ex, engine.Bad):
                r['read'] = 'reading the filter raises %r' % ex
        return r


def batch(case):
    """the matrices of every step of a batch may be those of another sensor"""
    from filterpy.kalman import KalmanFilter
    nx, nz, seq, first = case
    s = Sensors(nx, nz, 31)
    o = KalmanFilter(nx, nz)
    o.x, o.P, o.F, o.Q, o.H, o.R = s.x0.reshape(-1, 1).copy(), s.P0.copy(), s.F[0], s.Q[0], s.sen[0][0], s.sen[0][1]
    zs = [s.sen[k][2][i].reshape(-1, 1) if k is not None else None for i, k in enumerate(seq)]
    kk = [0 if k is None else k for k in seq]
    m, P, mp, Pp = o.batch_filter(zs, Hs=[s.sen[k][0] for k in kk], Rs=[s.sen[k][1] for k in kk], update_first=first)
    x, C = s.x0, s.P0
    for i, k in enumerate(seq):
        for ph in ('u', 'p') if first else ('p', 'u'):
            if ph == 'p':
                x, C = refs.predict(x, C, s.F[0], s.Q[0])
                a, b = mp[i], Pp[i]
            else:
                if k is not None:
                    x, C = refs.update(x, C, zs[i].ravel(), s.sen[k][0], s.sen[k][1])[:2]
                a, b = m[i], P[i]
            if not (engine.close(A(a).ravel(), x, 1e-7, 1e-9) and engine.close(b, C, 1e-7, 1e-9)):
                return ('batch over sensors %r, step %d (%s)' % (seq, i, ph), (x, C), (a, b)), None
    return None, [nx, nz, float(x[0]), float(C[0, 0])]


OPS = [('p',), ('u', 0, 'own'), ('u', 0, 's'), ('u', 1, 'm'), ('u', 2, 'm'), ('u', 3, 'm'), ('u', 2, 's'), ('u', 3, 's'), ('n',)]


def models(tier):
    th = tier == 'thorough'
    out = []
    for nx, nz in itertools.product((1, 2, 3), (1, 2, 3)):
        s = Sensors(nx, nz, 31)
        t = '%dx%d' % (nx, nz)
        few = [('p',), ('u', 0, 'own'), ('u', 1, 'm'), ('u', 2, 's'), ('u', 3, 'm'), ('n',)]
        lo = (2, 24) if nx == 2 or th else None
        for xf in ('col', '1d'):
            for k in ('kf', 'ekf', 'proc'):
                out.append(Mix('%s-%s-%s' % (k, t, xf), s, k, [o for o in OPS if k != 'proc' or o[-1] != 's'], 5 if th else 4 if (nx, nz) in ((2, 1), (2, 2)) else 3, xf, lasso=lo))
                if th or (nx, nz) == (2, 1):
                    out.append(Mix('%s-%s-%s-deep' % (k, t, xf), s, k, [o for o in few if k != 'proc' or o[-1] != 's'], 6 if th else 5, xf))
        for fam in (('merwe', .5, 2., 1.), ('julier', 1.), ('simplex',), ('user',)):
            out.append(Mix('ukf_%s-%s' % (fam[0], t), s, 'ukf', OPS, 5 if th else 4 if nx == 2 else 3, fam=fam, lasso=lo if fam[0] in ('merwe', 'simplex') else None))
        lo = lo if th or nz < 3 else None
        seqs = list(itertools.product((0, 1, 2, 3, None), repeat=4 if th or nx == 2 else 3))
        out.append(GridFn('batch-' + t, [(nx, nz, q, f) for q in (seqs if th or nz == 1 else itertools.product((0, 1, 2, 3, None), repeat=3)) for f in (False, True)], batch))
    return out
