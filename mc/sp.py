"""unscented and cubature filters: reference recursion over explicitly built sigma points, and drivers.

operations
  ('p', dt, w, alt)        predict; dt None|float, w None|float extra argument of fx, alt None|'fx'|'UT' override
  ('u', z, R, w, alt)      update; R None|index|'s', w extra argument of hx, alt None|'hx'|'UT'
  ('n',)                   missing measurement
  ('set', attr, i)         Q / R / x / P assigned by the user
  ('q', what)              queries
An update needs the sigma points of a preceding prediction (documented), otherwise it is disabled.
"""
import math
import numpy as np
from . import engine, refs
from .refs import A


# ------------------------------------------------------------ reference points

def low(P):
    """lower Cholesky factor, textbook loops"""
    P = A(P)
    n = len(P)
    L = np.zeros((n, n))
    for j in range(n):
        L[j, j] = math.sqrt(P[j, j] - sum(L[j, k] ** 2 for k in range(j)))
        for i in range(j + 1, n):
            L[i, j] = (P[i, j] - sum(L[i, k] * L[j, k] for k in range(j))) / L[j, j]
    return L


def symroot(P):
    w, V = np.linalg.eigh(refs.sym(A(P)))
    return (V * np.sqrt(w)).dot(V.T)


def points(fam, x, P, root=None):
    """(points, Wm, Wc); root: function P -> matrix whose *rows* are the offsets (as in the library)"""
    x = A(x).reshape(-1)
    n = len(x)
    R = (lambda M: low(M).T) if root is None else root
    k = fam[0]
    if k == 'simplex':
        # regular simplex on the unit sphere scaled to sqrt(n), in Householder-free recursive form
        lam = n / (n + 1.)
        I = np.zeros((n, n + 1))
        for d in range(1, n + 1):
            for j in range(d):
                I[d - 1, j] = 1. / math.sqrt(lam * d * (d + 1))
            I[d - 1, d] = -d / math.sqrt(lam * d * (d + 1))
        I[0, 0], I[0, 1] = -1. / math.sqrt(2 * lam), 1. / math.sqrt(2 * lam)
        off = R(P).T.dot(math.sqrt(n) * I)
        S = [x + off[:, j] for j in range(n + 1)]
        w = np.full(n + 1, 1. / (n + 1))
        return A(S), w, w
    if k == 'ckf':
        U = R(P) * math.sqrt(n)
        w = np.full(2 * n, .5 / n)
        return A([x + U[i] for i in range(n)] + [x - U[i] for i in range(n)]), w, w
    if k == 'user':
        return UserPoints(n).sigma_points(x, P), UserPoints(n).Wm, UserPoints(n).Wc
    if k == 'merwe':
        _, a, b, kap = fam
        c = a * a * (n + kap)
        wm0 = 1. - n / c
        wc0 = wm0 + 1 - a * a + b
    else:
        c = n + fam[1]
        wm0 = wc0 = 1. - n / c
    U = R(c * A(P))
    Wm = A([wm0] + [.5 / c] * (2 * n))
    Wc = A([wc0] + [.5 / c] * (2 * n))
    return A([x] + [x + U[i] for i in range(n)] + [x - U[i] for i in range(n)]), Wm, Wc


class UserPoints(object):
    """a user's own scheme: unequal distances on the two sides of each axis, the centre last"""
    a, b = 1.3, .7

    def __init__(self, n):
        self.n = n
        wa, wb = 1. / (self.a * (self.a + self.b)), 1. / (self.b * (self.a + self.b))
        self.Wm = A([wa, wb] * n + [1. - n * (wa + wb)])
        self.Wc = self.Wm.copy()
        self.Wc[-1] += .8

    def num_sigmas(self):
        return 2 * self.n + 1

    def sigma_points(self, x, P):
        x = A(x).reshape(-1)
        U = low(P).T
        return A([p for u in U for p in (x + self.a * u, x - self.b * u)] + [x])


def make_points(fam, n, root=None, subtract=None):
    """while arrays are pooled, sigma-point objects with equal parameters are shared as well"""
    if engine.Ctx.pool is None:
        return make_points_(fam, n, root, subtract)
    k = ('points', fam, n, root, subtract)
    if k not in engine.Ctx.pool:
        engine.Ctx.pool[k] = make_points_(fam, n, root, subtract)
    return engine.Ctx.pool[k]


def make_points_(fam, n, root=None, subtract=None):
    from filterpy.kalman import MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints
    kw = {}
    if root is not None:
        kw['sqrt_method'] = root
    if subtract is not None:
        kw['subtract'] = subtract
    if fam[0] == 'user':
        return UserPoints(n)
    if fam[0] == 'merwe':
        return MerweScaledSigmaPoints(n, fam[1], fam[2], fam[3], **kw)
    if fam[0] == 'julier':
        return JulierSigmaPoints(n, fam[1], **kw)
    return SimplexSigmaPoints(n, **kw)


def ut(S, Wm, Wc, N, mean=None, res=None):
    m = sum(w * s for w, s in zip(Wm, S)) if mean is None else A(mean(S.copy(), Wm))
    D = A([(s - m) if res is None else A(res(s, m)) for s in S])
    C = sum(w * np.outer(d, d) for w, d in zip(Wc, D)) + (0 if N is None else N)
    return m, C, D


def shift(m, k=1.):
    m = A(m).copy()
    m.reshape(-1)[0] += k * .125
    return m


def custom_ut(sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
    """a user's own transform: inflated covariance, biased mean"""
    from filterpy.kalman import unscented_transform
    x, P = unscented_transform(sigmas, Wm, Wc, noise_cov, mean_fn, residual_fn)
    return shift(x), P * 1.25


# ------------------------------------------------------------ problems

EDGE = [False]
DW = .05                # the extra argument when the user gives none


def wrapa(v):
    r = (v + math.pi) % (2 * math.pi) - math.pi
    if math.pi - abs(r) < 1e-5:
        EDGE[0] = True          # the user's function is discontinuous here: not a meaningful comparison
    return r


class Problem(object):
    """linear: x' = (I + dt A) x + w b ;  z = H x + v d"""
    linear = True
    xmean = zmean = resx = resz = add = None

    def __init__(self, s):
        self.s = s
        self.nx, self.nz = s.nx, s.nz
        self.Am = s.F[1] - np.eye(s.nx)
        self.Am2 = s.F[2] - np.eye(s.nx)
        self.b = s.B[0][:, 0]
        self.d = s.z[7]
        self.H, self.H2 = s.H[0], s.H[1]

    def Fm(self, dt, alt=False):
        return np.eye(self.nx) + dt * (self.Am2 if alt else self.Am)

    def f(self, x, dt, w=DW):
        return self.Fm(dt).dot(x) + w * self.b

    def f2(self, x, dt, w=DW):
        return self.Fm(dt, True).dot(x) + w * self.b

    def h(self, x, w=DW):
        return self.H.dot(x) + w * self.d

    def h2(self, x, w=DW):
        return self.H2.dot(x) + w * self.d


class NL(Problem):
    """nonlinear, no special functions"""
    linear = False

    def f(self, x, dt, w=DW):
        y = self.Fm(dt).dot(x)
        return y + dt * np.sin(x) * .5 + w * self.b + .1 * dt * x[0] * x

    def f2(self, x, dt, w=DW):
        return self.Fm(dt, True).dot(x) + dt * np.cos(x) + w * self.b

    def h(self, x, w=DW):
        y = self.H.dot(x)
        return np.sqrt(1. + y * y) + w * self.d + .3 * y

    def h2(self, x, w=DW):
        return np.tanh(self.H2.dot(x)) * 2 + w * self.d


class Angle(NL):
    """last state component and last measurement component are angles"""

    def __init__(self, s):
        NL.__init__(self, s)

    def f(self, x, dt, w=DW):
        y = x + dt * .3 * np.sin(np.roll(x, 1)) + w * self.b
        y[-1] = wrapa(x[-1] + dt * 1.1 + w)
        return y

    def h(self, x, w=DW):
        y = self.H.dot(np.concatenate([x[:-1], [math.sin(x[-1])]])) + w * self.d
        y[-1] = wrapa(x[-1] + w)
        return y

    def f2(self, x, dt, w=DW):
        y = self.f(x, dt, w)
        y[-1] = wrapa(y[-1] + 2.)
        return y

    def h2(self, x, w=DW):
        y = self.h(x, w)
        y[-1] = wrapa(y[-1] + 1.)
        return y

    @staticmethod
    def _m(S, W):
        S = A(S)
        m = np.dot(W, S)
        a, b = np.dot(W, np.sin(S[:, -1])), np.dot(W, np.cos(S[:, -1]))
        m[-1] = math.atan2(a, b)
        if a * a + b * b < 1e-6 or math.pi - abs(m[-1]) < 1e-5:
            EDGE[0] = True
        return m

    def xmean(self, S, W):
        return self._m(S, W)

    def zmean(self, S, W):
        return self._m(S, W)

    def resx(self, a, b):
        d = A(np.subtract(a, b))
        d[-1] = wrapa(d[-1])
        return d

    def resz(self, a, b):
        d = A(np.subtract(a, b))
        d[-1] = wrapa(d[-1])
        return d

    def add(self, a, b):
        d = A(np.add(a, b))
        d[-1] = wrapa(d[-1])
        return d


class AngleX(Angle):
    """only the state functions"""
    zmean = resz = None

    def h(self, x, w=DW):
        return self.H.dot(np.concatenate([x[:-1], [math.sin(x[-1])]])) + w * self.d
    h2 = h


class AngleZ(Angle):
    """only the measurement functions"""
    xmean = resx = add = None
    f = NL.f
    f2 = NL.f2


class Res(NL):
    """non-trivial residual without mean functions, to tell the two residuals apart"""
    xmean = zmean = add = None

    def resx(self, a, b):
        return A(np.subtract(a, b)) * 1.1

    def resz(self, a, b):
        return A(np.subtract(a, b)) * .9


# ------------------------------------------------------------ the model

class SP(engine.Model):
    rtol = 1e-6
    inv = None                  # the user's inverse function

    def __init__(self, name, prob, fam, ops, depth, dt=.5, lasso=None, root=None, subtract=None, exact=None, zform='1d',
                 xcol=False, atol=1e-9, via=None):
        self.name, self.pr, self.fam, self.ops, self.depth, self.dt, self.lasso = name, prob, fam, ops, depth, dt, lasso
        self.via = via                  # 'ukf': the square root is given to the filter, the points object has its own default one
        self.root, self.subtract = root, subtract
        self.exact = prob.linear if exact is None else exact      # compare with the exact Kalman filter
        self.ckf = fam[0] == 'ckf'
        self.zform = zform
        self.xcol = xcol
        self.atol = atol

    def lasso_ok(self, w):
        # cyclically: every update directly after predictions; at least one of each
        k = [o[0] for o in w]
        if 'p' not in k or 'u' not in k:
            return False
        return all(not (a == 'u' and b == 'u') for a, b in zip(k, k[1:] + k[:1])) and k[0] == 'p'

    # reference
    def init(self):
        s = self.pr.s
        return dict(x=s.x0, P=s.P0, Q=s.Q[0], R=s.R[0], fresh=False, S=None)

    def step(self, st, op):
        EDGE[0] = False
        r = self.step_(st, op)
        if EDGE[0] or (r is not None and not self.exact and np.abs(r[0]['x']).max() > 60.):
            return None
        return r

    def step_(self, st, op):
        pr, s = self.pr, self.pr.s
        t = dict(st)
        k = op[0]
        e = {}
        if st.get('dead'):
            return None
        if k == 'p':
            _, dt, w, alt = op
            dt = self.dt if dt is None else dt
            w = DW if w is None else w
            if self.exact:
                t['x'], t['P'] = refs.predict(st['x'], st['P'], pr.Fm(dt, alt == 'fx'), st['Q'], w * pr.b)
            else:
                f = pr.f2 if alt == 'fx' else pr.f
                S, Wm, Wc = points(self.fam, st['x'], st['P'], self.root)
                t['x'], t['P'], _ = ut(A([f(q.copy(), dt, w) for q in S]), Wm, Wc, st['Q'], pr.xmean, pr.resx)
            if alt == 'UT':
                t['x'], t['P'] = shift(t['x']), t['P'] * 1.25
            if np.linalg.eigvalsh(t['P']).min() < 1e-6 or np.abs(t['P']).max() > 1e9:
                return None
            t['fresh'] = True
            e = {'x_prior': t['x'], 'P_prior': t['P']}
        elif k == 'u':
            if not st['fresh']:
                return None
            _, z, R, w, alt = op
            w = DW if w is None else w
            R = st['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R]
            zz = s.z[z]
            if op[2] == 'z' and (s.nz > s.nx or alt == 'UT'):
                return None
            if self.exact:
                H = pr.H2 if alt == 'hx' else pr.H
                t['x'], t['P'], y, S_, K = refs.update(st['x'], st['P'], zz - w * pr.d, H, R)
                if alt == 'UT':
                    S_ = S_ * 1.25
                    K = K / 1.25
                    y = shift(y, -1)
                    t['x'] = st['x'] + K.dot(y)
                    t['P'] = st['P'] - K.dot(S_).dot(K.T)
            else:
                h = pr.h2 if alt == 'hx' else pr.h
                S, Wm, Wc = points(self.fam, st['x'], st['P'], self.root)
                Z = A([h(q.copy(), w) for q in S])
                zp, S_, D = ut(Z, Wm, Wc, R, pr.zmean, pr.resz)
                if alt == 'UT':
                    zp, S_ = shift(zp), S_ * 1.25
                    D = A([(q - zp) if pr.resz is None else pr.resz(q, zp) for q in Z])
                if self.inv is None and np.linalg.eigvalsh(S_).min() < 1e-6:
                    return None
                X = A([(q - st['x']) if pr.resx is None else pr.resx(q, st['x']) for q in S])
                C = sum(c * np.outer(a, b) for c, a, b in zip(Wc, X, D))
                K = np.linalg.solve(S_.T, C.T).T if self.inv is None else C.dot(self.inv(S_))
                y = (zz - zp) if pr.resz is None else pr.resz(zz, zp)
                t['x'] = st['x'] + K.dot(y) if pr.add is None or self.ckf else pr.add(st['x'], K.dot(y))
                t['P'] = st['P'] - K.dot(S_).dot(K.T)
            if op[2] == 'z':
                t['dead'] = True            # exactly known: no further sigma points
            elif np.linalg.eigvalsh(refs.sym(t['P'])).min() < 1e-6:
                return None
            t['fresh'] = False
            e = {'x_post': t['x'], 'P_post': t['P'], 'y': y, 'S': S_, 'K': K, 'SI': (self.inv or np.linalg.inv)(S_), 'z': zz}
        elif k == 'set':
            _, a, i = op[:3]
            if op[3:] == ('mul',):
                t[a] = st[a] * i
                t['fresh'] = st['fresh'] and a not in 'xP'
            elif a == 'x':
                t['x'], t['fresh'] = s.x1, False
            elif a == 'P':
                t['P'], t['fresh'] = s.P1, False
            else:
                t[a] = getattr(s, a)[i]
        e.update({'x': t['x'], 'P': t['P']})
        return t, e

    # driver
    def fresh(self):
        pr, s = self.pr, self.pr.s
        c = engine.Ctx()
        kw = {}
        if self.ckf:
            from filterpy.kalman import CubatureKalmanFilter
            kw = dict((n, q) for n, q in (('x_mean_fn', pr.xmean), ('z_mean_fn', pr.zmean), ('residual_x', pr.resx), ('residual_z', pr.resz)) if q)
            c.o = CubatureKalmanFilter(s.nx, s.nz, self.dt, hx=pr.h, fx=pr.f, **kw)
        else:
            from filterpy.kalman import UnscentedKalmanFilter
            if pr.xmean:
                kw['x_mean_fn'] = pr.xmean
            if pr.zmean:
                kw['z_mean_fn'] = pr.zmean
            if pr.resx:
                kw['residual_x'] = pr.resx
            if pr.resz:
                kw['residual_z'] = pr.resz
            if pr.add:
                kw['state_add'] = pr.add
            pts = make_points(self.fam, s.nx, None if self.via == 'ukf' else self.root, self.subtract)
            if self.via == 'ukf':
                kw['sqrt_fn'] = self.root
                before = pts.sqrt
            c.o = UnscentedKalmanFilter(s.nx, s.nz, self.dt, hx=pr.h, fx=pr.f, points=pts, **kw)
            if self.via == 'ukf' and pts.sqrt is not before:
                raise engine.Bad('the sigma-point object of the caller was modified')
        if self.inv is not None:
            c.o.inv = self.inv
        c.o.x = c.give(s.x0.reshape(-1, 1).copy() if self.xcol else s.x0.copy(), 'initial x')
        c.o.P = c.give(s.P0.copy(), 'initial P')
        c.o.Q = c.give(s.Q[0].copy(), 'Q')
        c.o.R = c.give(s.R[0].copy(), 'R')
        return c

    def zz(self, c, i, form=None):
        v = self.pr.s.z[i]
        f = form or self.zform
        if f == 'col':
            v = v.reshape(-1, 1).copy()
        elif f == 'list':
            v = [float(q) for q in v]
        elif f == 'scalar':
            return float(v[0])
        else:
            v = v.copy()
        return c.give(v, 'z')

    def do(self, c, op):
        pr, s = self.pr, self.pr.s
        k = op[0]
        o = c.o
        if k == 'p':
            _, dt, w, alt = op
            kw = {} if dt is None else {'dt': dt}
            if w is not None:
                if self.ckf:
                    kw['fx_args'] = (w,) if w > 0 else w
                else:
                    kw['w'] = w
            if alt == 'fx':
                kw['fx'] = pr.f2
            if alt == 'UT':
                kw['UT'] = custom_ut
            o.predict(**kw)
        elif k == 'u':
            _, z, R, w, alt = op
            kw = {}
            if R is not None:
                kw['R'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R].copy(), 'R argument')
            if w is not None:
                if self.ckf:
                    kw['hx_args'] = (w,) if w > 0 else w
                else:
                    kw['w'] = w
            if alt == 'hx':
                kw['hx'] = pr.h2
            if alt == 'UT':
                kw['UT'] = custom_ut
            o.update(self.zz(c, z, None if alt in (None, 'hx', 'UT') else alt), **kw)
        elif k == 'n':
            o.update(None)
        elif k == 'set':
            _, a, i = op[:3]
            how = op[3] if len(op) > 3 else None
            c.assign(o, a, i if how == 'mul' else s.x1 if a == 'x' else s.P1 if a == 'P' else getattr(s, a)[i], how)
        elif k == 'q':
            repr(o)
        r = {n: getattr(o, n) for n in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'S', 'SI', 'K')}
        if k == 'u':
            r['z'] = o.z
        c.hold(o.x, 'x')
        c.hold(o.P, 'P')
        return r


def Pp(dt=None, w=None, alt=None):
    return ('p', dt, w, alt)


def Uu(z, R=None, w=None, alt=None):
    return ('u', z, R, w, alt)
