"""Linear-Gaussian histories: reference model + drivers for the real classes.

operations (tuples):
  ('p', u, B, F, Q)      predict; each entry is None or an index; Q may be 's' (scalar)
  ('u', z, form, R, H)   update with z-vector number z passed in the given form;
                         R: None | index | 's' scalar ; H: None | index
  ('n',)                 update(None)
  ('set', attr, idx)     the user assigns F/Q/R/H/B/x/P/M/alpha
  ('q', name)            a query that must change nothing
"""
import numpy as np
from . import engine
from . import refs
from .refs import A


def zform(v, form):
    v = np.asarray(v, dtype=float)
    if form == 'col':
        return v.reshape(-1, 1).copy()
    if form == '1d':
        return v.copy()
    if form == 'row':
        return v.reshape(1, -1).copy()
    if form == 'list':
        return [float(e) for e in v]
    if form == 'listcol':
        return [[float(e)] for e in v]
    if form == 'scalar':
        return float(v[0])
    if form == '0d':
        return np.array(float(v[0]))
    if form == 'icol':
        return np.round(v).astype(int).reshape(-1, 1)
    if form == 'i1d':
        return np.round(v).astype(int)
    if form == 'iscalar':
        return int(round(float(v[0])))
    raise ValueError(form)


def zval(v, form):
    return np.round(A(v)) if form.startswith('i') else A(v)


class Lin(engine.Model):
    keys = ('x!', 'P!')
    bookkeeping = False
    diag = False

    def __init__(self, name, sys, ops, depth, xform='col', alpha=1., lasso=None, ctl=False, intx=False,
                 extras=(), zero_x=False, atol=None, psd=False, keys=None):
        self.name = name
        self.sys = sys
        self.ops = [tuple(o) for o in ops]
        self.depth = depth
        self.xform = xform
        self.alpha0 = alpha
        self.lasso = lasso
        self.ctl = ctl
        self.intx = intx
        self.extras = extras
        self.zero_x = zero_x
        self.psd = psd
        if keys is not None:
            self.keys = keys
        self.atol = atol if atol is not None else 1e-10 * min(1., sys.scale ** 2)

    def extra(self):
        return self.extras

    # ---- helpers
    def xs(self, v):
        """x in the user's chosen shape"""
        v = A(v)
        return v.reshape(-1, 1).copy() if self.xform == 'col' else v.copy()

    def us(self, i):
        u = self.sys.u[i]
        return u.reshape(-1, 1).copy() if self.xform == 'col' else u.copy()

    # ---- reference
    def init(self):
        s = self.sys
        x = np.zeros(s.nx) if self.zero_x else (np.round(s.x0 * 4) if self.intx else s.x0)
        st = dict(x=A(x), P=s.P0, F=s.F[0], Q=s.Q[0], H=s.H[0], R=s.R[0],
                  B=s.B[0] if self.ctl else None, M=np.zeros((s.nx, s.nz)), alpha=self.alpha0,
                  y=None, S=None, K=None, z=None, xp=None, Pp=None, xq=None, Pq=None, last='init', ll=None)
        return st

    def correlated(self):
        return False

    def step(self, st, op):
        s = self.sys
        t = dict(st)
        k = op[0]
        if k == 'p':
            _, u, B, F, Q = op
            Fm = st['F'] if F is None else s.F[F]
            Qm = st['Q'] if Q is None else (np.eye(s.nx) * refs.scal(s.sq, Q) if Q in refs.SZ else s.Q[Q])
            Bm = st['B'] if B is None else s.B[B]
            Bu = None if (u is None or Bm is None) else Bm.dot(s.u[u])
            t['x'], t['P'] = refs.predict(st['x'], st['P'], Fm, Qm, Bu, st['alpha'])
            t['xp'], t['Pp'] = t['x'], t['P']
            t['last'] = 'p'
        elif k == 'u':
            _, z, form, R, H = op
            Rm = st['R'] if R is None else (np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R])
            Hm = st['H'] if H is None else s.H[H]
            zv = Hm.dot(st['x']) if z == 'x' else zval(s.z[z], form)
            if self.degenerate(st['P'], Hm, Rm):
                return None
            t['x'], t['P'], t['y'], t['S'], t['K'] = refs.update(
                st['x'], st['P'], zv, Hm, Rm, st['M'] if self.correlated() else None)
            t['z'] = zv
            t['ll'] = True
            t['xq'], t['Pq'] = t['x'], t['P']
            t['last'] = 'u'
        elif k == 'n':
            t['z'] = None
            t['xq'], t['Pq'] = t['x'], t['P']
            t['y'] = np.zeros(s.nz)
            t['last'] = 'n'
        elif k == 'set':
            _, a, i = op[:3]
            if op[3:] == ('mul',):
                t[a] = st[a] * i
            elif a == 'x':
                t['x'] = s.x1 if i == 1 else s.x0
            elif a == 'P':
                t['P'] = s.P1 if i == 1 else s.P0
            elif a == 'alpha':
                t['alpha'] = float(i)
            elif a == 'M':
                t['M'] = s.M * i
            else:
                t[a] = getattr(s, a)[i]
            t['last'] = 'set'
        elif k == 'q':
            pass
        else:
            raise ValueError(op)
        return t, self.expect(st, op, t)

    def degenerate(self, P, H, R):
        """an exact measurement of something already known exactly"""
        if R.any():
            return False
        S = H.dot(P).dot(H.T)
        m = np.abs(H).dot(np.abs(self.sys.P0)).dot(np.abs(H.T)).max()
        return np.linalg.eigvalsh(refs.sym(S)).min() < 1e-5 * m

    def expect(self, st, op, t):
        e = {'x!': self.xs(t['x']), 'P!': t['P']}
        for k in ('y', 'S', 'K'):
            if k in self.keys and t['last'] == 'u':
                e[k] = t[k]
        if self.psd:
            e['psd'] = lambda v: v
        return e

    # ---- driver
    def setup(self, kf, c):
        s = self.sys
        x = np.zeros(s.nx) if self.zero_x else s.x0
        x = self.xs(x)
        if self.intx:
            x = np.round(x * 4).astype(int)
        kf.x = c.give(x, 'initial x')
        kf.P = c.give(s.P0.copy(), 'initial P')
        kf.F = c.give(s.F[0].copy(), 'F')
        kf.Q = c.give(s.Q[0].copy(), 'Q')
        kf.H = c.give(s.H[0].copy(), 'H')
        kf.R = c.give(s.R[0].copy(), 'R')
        if self.ctl:
            kf.B = c.give(s.B[0].copy(), 'B')
        if self.alpha0 != 1.:
            kf.alpha = self.alpha0

    def do_set(self, c, op):
        s = self.sys
        _, a, i = op[:3]
        how = op[3] if len(op) > 3 else None
        kf = c.o
        if a == 'alpha':
            kf.alpha = kf.alpha * i if how == 'mul' else float(i)
        else:
            c.assign(kf, a, self.setval(a, i, how), how)

    def setval(self, a, i, how):
        s = self.sys
        if how == 'mul':
            return i
        return self.xs(s.x1 if i == 1 else s.x0) if a == 'x' else A(s.P1 if i == 1 else s.P0) if a == 'P' else s.M * i if a == 'M' else getattr(s, a)[i]

    def pargs(self, c, op):
        s = self.sys
        _, u, B, F, Q = op
        kw = {}
        if u is not None:
            kw['u'] = c.give(self.us(u), 'u')
        if B is not None:
            kw['B'] = c.give(s.B[B].copy(), 'B argument')
        if F is not None:
            kw['F'] = c.give(s.F[F].copy(), 'F argument')
        if Q is not None:
            kw['Q'] = refs.scal(s.sq, Q) if Q in refs.SZ else c.give(s.Q[Q].copy(), 'Q argument')
        return kw

    def uargs(self, c, op):
        s = self.sys
        _, z, form, R, H = op
        kw = {}
        if R is not None:
            kw['R'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R].copy(), 'R argument')
        if H is not None:
            kw['H'] = c.give(s.H[H].copy(), 'H argument')
        if z == 'x':            # exactly the predicted measurement: no residual
            f = c.o if hasattr(c, 'o') else c
            v = np.dot(kw.get('H', f.H if hasattr(f, 'H') else c.H), f.x).reshape(-1)
        else:
            v = s.z[z]
        return c.give(zform(v, form), 'z'), kw

    def observe(self, c, op):
        kf = c.o
        o = {}
        for k in self.keys:
            o[k] = getattr(kf, k.rstrip('!'))
        c.hold(o['x!'], 'x')
        c.hold(o['P!'], 'P')
        return o


class KF(Lin):
    keys = ('x!', 'P!', 'y', 'S', 'K')

    def fresh(self):
        from filterpy.kalman import KalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = KalmanFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        self.setup(c.o, c)
        return c

    def do(self, c, op):
        k = op[0]
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'set':
            self.do_set(c, op)
        return self.observe(c, op)


P_ = ('p', None, None, None, None)


def U(z, form='col', R=None, H=None):
    return ('u', z, form, R, H)


def Pr(u=None, B=None, F=None, Q=None):
    return ('p', u, B, F, Q)


N_ = ('n',)


def assigns(a, mut=True):
    """all the ways a user has to change an attribute"""
    return [('set', a, 1, 'same'), ('set', a, 1, 'buf'), ('set', a, 0, 'buf'), ('set', a, 2., 'mul')] + ([('set', a, 1, 'mut')] if mut else [])


class Proc(Lin):
    """the procedural functions predict() / update()"""
    keys = ('x!', 'P!', 'y', 'S', 'K')
    return_all = True

    def fresh(self):
        s = self.sys
        c = engine.Ctx()
        c.x = c.give(self.xs(s.x0), 'initial x')
        c.P = c.give(s.P0.copy(), 'initial P')
        c.F, c.Q, c.H, c.R, c.B, c.alpha = s.F[0], s.Q[0], s.H[0], s.R[0], (s.B[0] if self.ctl else None), self.alpha0
        c.y = c.S = c.K = None
        return c

    def do(self, c, op):
        from filterpy.kalman import predict, update
        s = self.sys
        k = op[0]
        if k == 'p':
            kw = self.pargs(c, op)
            kw.setdefault('F', c.give(c.F.copy(), 'F'))
            kw.setdefault('Q', c.give(c.Q.copy(), 'Q'))
            if 'u' in kw and 'B' not in kw:
                if c.B is None:
                    kw.pop('u')
                else:
                    kw['B'] = c.give(c.B.copy(), 'B')
            if 'u' not in kw:
                kw.pop('B', None)
            if c.alpha != 1.:
                kw['alpha'] = c.alpha
            c.x, c.P = predict(c.x, c.P, **kw)
        elif k in 'un':
            z, kw = self.uargs(c, op) if k == 'u' else (None, {})
            kw.setdefault('R', c.give(c.R.copy(), 'R'))
            kw.setdefault('H', c.give(c.H.copy(), 'H'))
            if self.return_all:
                c.x, c.P, c.y, c.K, c.S, ll = update(c.x, c.P, z, return_all=True, **kw)
            else:
                c.x, c.P = update(c.x, c.P, z, **kw)
        elif k == 'set':
            _, a, i = op[:3]
            if op[3:] == ('mul',):
                setattr(c, a, getattr(c, a) * i)
            elif a == 'alpha':
                c.alpha = float(i)
            else:
                setattr(c, a, self.xs(s.x1) if a == 'x' else s.P1 if a == 'P' else getattr(s, a)[i])
        c.hold(c.x, 'x')
        c.hold(c.P, 'P')
        o = {'x!': c.x, 'P!': c.P}
        if self.return_all:
            o.update(y=c.y, S=c.S, K=c.K)
        return o


class ProcScalar(Lin):
    """the procedural functions with plain float arguments (1-dimensional filter)"""
    keys = ('x', 'P')

    def fresh(self):
        c = engine.Ctx()
        c.x, c.P = float(self.sys.x0[0]), float(self.sys.P0[0, 0])
        return c

    def expect(self, st, op, t):
        return {'x': t['x'], 'P': t['P']}

    def init(self):
        st = Lin.init(self)
        st['F'] = np.eye(1)
        st['H'] = np.eye(1)
        st['B'] = np.eye(1)
        st['Q'] = np.zeros((1, 1))
        st['R'] = self.sys.R[0]
        return st

    def do(self, c, op):
        from filterpy.kalman import predict, update
        s = self.sys
        k = op[0]
        f = lambda m: float(m[0, 0])
        if k == 'p':
            _, u, B, F, Q = op
            kw = {}
            if u is not None:
                kw['u'] = float(s.u[u][0])
            if B is not None:
                kw['B'] = f(s.B[B])
            if F is not None:
                kw['F'] = f(s.F[F])
            if Q is not None:
                kw['Q'] = f(s.Q[Q])
            c.x, c.P = predict(c.x, c.P, **kw)
        elif k == 'u':
            _, z, form, R, H = op
            kw = {'R': f(s.R[0 if R is None else R])}
            if H is not None:
                kw['H'] = f(s.H[H])
            c.x, c.P = update(c.x, c.P, zform(s.z[z], form), **kw)
        else:
            c.x, c.P = update(c.x, c.P, None, R=1.)
        return {'x': c.x, 'P': c.P}
