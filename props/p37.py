import itertools
import numpy as np
from mc import engine, refs, lin, sp
from mc.refs import A, Sys
from mc.lin import P_, U, Pr, N_, KF
from mc.kfs import Info
from mc.sp import SP, NL, Angle, Pp, Uu
from mc.enkf import EN
from mc.ekfnl import EKFNon
from mc.zoo import gen
from props.p04 import Err, need, wrap

ID = 'P37'
LEVEL = 'model_checking'
BOUND = ('every sequence of predictions, updates (ordinary, correlated, sequential in every partition), missing measurements and changes of the inverse function up to depth 4 (quick) / 6 (thorough), for the linear, unscented, ensemble and '
         'information filters with the Moore-Penrose pseudo inverse on singular innovation covariances (duplicated or perfectly correlated sensors, exact repeated measurements), with a regularised inverse, with the diagonal inverse, and with the '
         'default; every measurement sequence of length 1-4 for both smoothers with the same functions (singular predicted covariances included); the extended filter with an overridden state propagation; a user-defined '
         'sigma-point class; dim_x 1-3, dim_z 1-3')
ASSUMPTIONS = ['the user function is called with a square matrix and returns an inverse, pseudo inverse or regularised inverse of it']


def pinv(S):
    """Moore-Penrose pseudo inverse with an absolute cut-off (the systems are of order one)"""
    S = np.atleast_2d(A(S))
    w, V = np.linalg.eigh(refs.sym(S))
    k = np.abs(w) > 1e-8
    return (V[:, k] / w[k]).dot(V[:, k].T) if k.any() else np.zeros_like(S)


def reg(S):
    S = np.atleast_2d(A(S))
    return np.linalg.inv(S + .3 * np.eye(len(S)))


def npinv(S):
    return np.linalg.pinv(S)


def diag(S):
    from filterpy.common import inv_diagonal
    return inv_diagonal(S)


INV = {'pinv': pinv, 'reg': reg, 'npinv': npinv, 'diag': diag, 'inv': np.linalg.inv}


class Dup(Sys):
    """the last sensor repeats the first one: H has equal rows; R = r 1 1' on them (r may be 0)"""

    def __init__(self, nx, nz, r, var):
        Sys.__init__(self, nx, nz, var=var)
        for k in range(4):
            self.H[k][-1] = self.H[k][0]
            R = self.R[k] if r else np.zeros((nz, nz))
            R[-1] = R[0]
            R[:, -1] = R[:, 0]
            R[-1, -1] = R[0, 0]
            self.R[k] = R
        self.M[:, -1] = self.M[:, 0]
        for k in range(0, 8, 2):                     # every other measurement agrees with itself
            self.z[k][-1] = self.z[k][0]


class InvKF(KF):
    """ops of KF plus ('inv', name), ('c', z) and ('s', z, partition)"""
    iname = 'pinv'
    corr = False
    keys = ('x!', 'P!')

    def init(self):
        st = KF.init(self)
        st['inv'] = self.iname
        st['M'] = .5 * self.sys.M if self.corr else st['M']
        return st

    def gain(self, st, C, S):
        return C.dot(INV[st['inv']](S))

    def step(self, st, op):
        s = self.sys
        t = dict(st)
        if op[0] == 'inv':
            t['inv'] = op[1]
            return t, self.expect(st, op, t)
        if op[0] == 'u':
            _, z, form, R, H = op
            Rm = st['R'] if R is None else s.R[R]
            Hm = st['H'] if H is None else s.H[H]
            S = Hm.dot(st['P']).dot(Hm.T) + Rm
            if st['inv'] in ('inv', 'diag', 'npinv') and np.linalg.eigvalsh(refs.sym(S)).min() < 1e-4:
                return None
            if st['inv'] == 'diag' and np.abs(S - np.diag(np.diag(S))).max() > 0:
                return None
            if np.any((np.abs(np.linalg.eigvalsh(refs.sym(S))) > 1e-11) & (np.abs(np.linalg.eigvalsh(refs.sym(S))) < 1e-4)):
                return None
            K = self.gain(st, st['P'].dot(Hm.T), S)
            y = s.z[z] - Hm.dot(st['x'])
            I = np.eye(s.nx) - K.dot(Hm)
            t.update(x=st['x'] + K.dot(y), P=refs.sym(I.dot(st['P']).dot(I.T) + K.dot(Rm).dot(K.T)), last='u')
            e = self.expect(st, op, t)
            e.update(K=K, y=y, S=S, SI=INV[st['inv']](S))
            return t, e
        if op[0] == 'c':
            Hm = st['H']
            S = Hm.dot(st['P']).dot(Hm.T) + Hm.dot(st['M']) + st['M'].T.dot(Hm.T) + st['R']
            w = np.linalg.eigvalsh(refs.sym(S))
            if st['last'] != 'p' or st['inv'] not in ('inv', 'pinv') or (st['inv'] == 'inv' and w.min() < 1e-4) or np.any((w < 1e-4) & (np.abs(w) > 1e-11)):
                return None
            C = st['P'].dot(Hm.T) + st['M']
            K = self.gain(st, C, S)
            y = s.z[op[1]] - Hm.dot(st['x'])
            t.update(x=st['x'] + K.dot(y), P=refs.sym(st['P'] - C.dot(INV[st['inv']](S)).dot(C.T)), last='c')
            if np.linalg.eigvalsh(t['P']).min() < -1e-9:
                return None
            e = self.expect(st, op, t)
            e.update(K=K, y=y, S=S, SI=INV[st['inv']](S))
            return t, e
        if op[0] == 's':
            x, P, i = st['x'], st['P'], 0
            for m in op[2]:
                q = slice(i, i + m)
                Hm, Rm = st['H'][q], st['R'][q, q]
                S = Hm.dot(P).dot(Hm.T) + Rm
                w = np.linalg.eigvalsh(refs.sym(S))
                if (st['inv'] in ('inv', 'diag', 'npinv') and w.min() < 1e-4) or np.any((w < 1e-4) & (np.abs(w) > 1e-11)):
                    return None
                if st['inv'] == 'diag' and np.abs(S - np.diag(np.diag(S))).max() > 0:
                    return None
                K = self.gain(st, P.dot(Hm.T), S)
                I = np.eye(s.nx) - K.dot(Hm)
                x = x + K.dot(s.z[op[1]][q] - Hm.dot(x))
                P = refs.sym(I.dot(P).dot(I.T) + K.dot(Rm).dot(K.T))
                i += m
            t.update(x=x, P=P, last='s')
            return t, self.expect(st, op, t)
        q = KF.step(self, st, op)
        return q

    def expect(self, st, op, t):
        return {'x!': self.xs(t['x']), 'P!': t['P']}

    def setup(self, kf, c):
        KF.setup(self, kf, c)
        if self.iname != 'inv':
            kf.inv = INV[self.iname]
        if self.corr:
            kf.M = c.give(.5 * self.sys.M.copy(), 'M')

    def do(self, c, op):
        s = self.sys
        if op[0] == 'inv':
            c.o.inv = INV[op[1]]
        elif op[0] == 'c':
            c.o.update_correlated(c.give(self.xs(s.z[op[1]]), 'z'))
        elif op[0] == 's':
            i = 0
            for m in op[2]:
                z = s.z[op[1]][i:i + m]
                c.o.update_sequential(i, float(z[0]) if m == 1 else c.give(z.reshape(-1, 1).copy(), 'z'))
                i += m
        else:
            KF.do(self, c, op)
        r = self.observe(c, op)
        for k in ('K', 'y', 'S', 'SI'):
            r[k] = getattr(c.o, k)
        return r


class RecInfo(Info):
    """the information filter calls the user's function for the inverses it reports"""
    compute = True

    def fresh(self):
        c = Info.fresh(self)
        c.calls = 0

        def rec(M):
            c.calls += 1
            return np.linalg.inv(M)
        c.o.inv = rec
        return c

    def step(self, st, op):
        q = Info.step(self, st, op)
        if q is not None and op[0] in 'pu':
            q[1]['calls'] = lambda v: v or 'the inverse function of the user was not used'
        return q

    def do(self, c, op):
        c.calls = 0
        r = Info.do(self, c, op)
        r['calls'] = c.calls > 0
        return r


class PinvSP(SP):
    inv = staticmethod(pinv)


class RegSP(SP):
    inv = staticmethod(reg)


class PinvEN(EN):
    inv = staticmethod(pinv)


class RegEN(EN):
    inv = staticmethod(reg)


class DupNL(NL):
    """the last measurement repeats the first"""

    def h(self, x, w=sp.DW):
        y = NL.h(self, x, 0.)
        y[-1] = y[0]
        return y

    def h2(self, x, w=sp.DW):
        y = NL.h2(self, x, 0.)
        y[-1] = y[0]
        return y


class EKFX(EKFNon):
    """an extended filter whose user overrides predict_x; F is the Jacobian the user assigned"""

    def fx(self, x, F, Bu):
        x = np.ravel(x)
        return F.dot(x) + .3 * np.sin(x) + (0. if Bu is None else 2. * Bu)

    def fresh(self):
        from filterpy.kalman import ExtendedKalmanFilter
        m = self

        class Mine(ExtendedKalmanFilter):
            def predict_x(self, u=0):
                Bu = None if np.isscalar(u) and u == 0 else np.ravel(np.dot(self.B, u))
                self.x = m.fx(self.x, self.F, Bu).reshape(np.shape(self.x))
        s = self.sys
        c = engine.Ctx()
        c.o = Mine(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu)
        self.setup(c.o, c)
        del c.o.H
        return c

    def step(self, st, op):
        if op[0] not in ('p', 'pu'):
            return EKFNon.step(self, st, op)
        u = op[1] if op[0] == 'p' else op[3]
        Bu = None if u is None else st['B'].dot(self.sys.u[u])
        t = dict(st, x=self.fx(st['x'], st['F'], Bu), P=st['F'].dot(st['P']).dot(st['F'].T) + st['Q'], last='p')
        prior = t
        if op[0] == 'pu' and op[1] is not None:
            t = self.upd(t, op[1], op[2], None, False)
        if np.abs(t['x']).max() > 50:
            return None
        e = self.expect(st, op, t)
        e.update(x_prior=prior['x'], P_prior=prior['P'])
        return t, e

    def observe(self, c, op):
        r = EKFNon.observe(self, c, op)
        r.update(x_prior=c.o.x_prior, P_prior=c.o.P_prior)
        return r


# ------------------------------------------------------------------ smoothers

def rts_check(case):
    """linear smoother, singular or regular predicted covariances, every inverse function"""
    nx, iname, qk, xf, seq = case
    s = Sys(nx, 1, var=5)
    Q = s.Q[0] if qk == 'full' else np.zeros((nx, nx))
    v = s.x1.reshape(-1, 1)
    P0 = v.dot(v.T) if qk == 'rank1' else s.P0
    c = lin.KF('x', s, [], 1, xf).fresh()
    o = c.o
    o.P, o.Q = c.give(P0.copy(), 'P'), c.give(Q.copy(), 'Q')
    zs = [None if z is None else s.z[z].reshape(-1, 1) for z in seq]
    Xs, Ps, _, _ = o.batch_filter(zs)
    n = len(seq)
    r = o.rts_smoother(c.give(Xs, 'Xs'), c.give(Ps, 'Ps'), inv=INV[iname])
    F, x, P = s.F[0], A(Xs).reshape(n, nx).copy(), A(Ps).copy()
    for k in range(n - 2, -1, -1):
        pp = F.dot(P[k]).dot(F.T) + Q
        K = P[k].dot(F.T).dot(INV[iname](pp))
        need('smoother gain', r[2][k], K, None, 1e-6)
        x[k] = x[k] + K.dot(x[k + 1] - F.dot(x[k]))
        P[k] = P[k] + K.dot(P[k + 1] - pp).dot(K.T)
    need('smoothed means', r[0], x, Xs.shape, 1e-6)
    need('smoothed covariances', r[1], P, Ps.shape, 1e-6)
    if iname != 'reg':
        xp, Pp = refs.predict(s.x0, P0, F, Q)
        wx, wP = refs.smooth_joint(xp, Pp, [F] * n, [Q] * n, [None if z is None else (s.z[z], s.H[0], s.R[0]) for z in seq])
        need('smoothed means (joint)', r[0], wx, Xs.shape, 1e-6)
        need('smoothed covariances (joint)', r[1], wP, Ps.shape, 1e-6)
    f = c.frames()
    if f:
        raise Err(f)
    return x


def urts_check(case):
    """unscented smoother with the user's inverse function"""
    nx, iname, fam, seq = case
    s = Sys(nx, 1, var=5)
    pr = NL(s)
    m = SP('x', pr, fam, [], 1)
    c = m.fresh()
    o = c.o
    o.inv = INV[iname]
    n = len(seq)
    Xs = A([s.x0 if i == 0 else s.x1 for i in seq])
    Ps = A([s.P0 if (i + k) % 2 else s.P1 for k, i in enumerate(seq)])
    r = o.rts_smoother(c.give(Xs, 'Xs'), c.give(Ps, 'Ps'))
    x, P = Xs.copy(), Ps.copy()
    for k in range(n - 2, -1, -1):
        S, Wm, Wc = sp.points(fam, x[k], P[k])
        Y = A([pr.f(q.copy(), .5) for q in S])
        xb, Pb, D = sp.ut(Y, Wm, Wc, s.Q[0])
        K = sum(w * np.outer(a - Xs[k], d) for w, a, d in zip(Wc, S, D)).dot(INV[iname](Pb))
        need('smoother gain', r[2][k], K, None, 1e-6)
        x[k] = x[k] + K.dot(x[k + 1] - xb)
        P[k] = P[k] + K.dot(P[k + 1] - Pb).dot(K.T)
    need('smoothed means', r[0], x, Xs.shape, 1e-6)
    need('smoothed covariances', r[1], P, Ps.shape, 1e-6)
    f = c.frames()
    if f:
        raise Err(f)
    return x


def batch_check(case):
    """batch_filter with singular sensors and the pseudo inverse equals the steps"""
    nx, nz, r, xf, iname, first, seq = case
    m = InvKF('x', Dup(nx, nz, r, 81), [], 1, xf)
    m.iname = iname
    st = m.init()
    c = m.fresh()
    f = 'col' if xf == 'col' else '1d'
    xs, Ps = [], []
    for z in seq:
        for k in ('up' if first else 'pu'):
            q = m.step(st, P_ if k == 'p' else N_ if z is None else U(z, f))
            if q is None:
                return [0.]
            st = q[0]
            if k == 'u':
                xs.append(st['x'])
                Ps.append(st['P'])
    r = c.o.batch_filter([None if z is None else m.xs(m.sys.z[z]) for z in seq], update_first=first)
    need('means', r[0], A(xs).reshape((-1, nx, 1) if xf == 'col' else (-1, nx)), None, 1e-7)
    need('covariances', r[1], A(Ps), None, 1e-7)
    return A(xs)


def seqs(alpha, n):
    return [q for k in range(1, n + 1) for q in itertools.product(alpha, repeat=k)]


def parts(n):
    return [(n,)] if n == 1 else [(n,)] + [(k,) + q for k in range(1, n) for q in parts(n - k)]


def models(tier):
    th = tier == 'thorough'
    out = []
    d = 5 if th else 4
    for nx, nz in ((1, 2), (2, 2), (3, 2), (2, 3)):
        for r in (0, 1):
            for xf in ('col', '1d'):
                f = 'col' if xf == 'col' else '1d'
                t = '%dx%d-r%d-%s' % (nx, nz, r, xf)
                s = Dup(nx, nz, r, 81)
                for iname in ('pinv', 'reg'):
                    m = InvKF('%s-%s' % (iname, t), s, [P_, Pr(Q=1), U(0, f), U(1, f), U(2, f, R=1, H=1), N_], d, xf, lasso=(2, 20))
                    m.iname = iname
                    out.append(m)
                m = InvKF('switch-' + t, s, [P_, U(1, f), U(2, f), ('inv', 'reg'), ('inv', 'pinv')], d, xf)
                out.append(m)
                m = InvKF('corr-' + t, s, [P_, ('c', 0), ('c', 1), U(3, f)], d, xf)
                m.corr = True
                out.append(m)
                if xf == 'col':
                    for iname in ('pinv', 'reg'):
                        m = InvKF('seq-%s-%s' % (iname, t), s, [P_] + [('s', z, p) for p in parts(nz) for z in (0, 1)], 4 if th or nz == 2 else 3, xf)
                        m.iname = iname
                        out.append(m)
    for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2)):
        s = Sys(nx, nz, var=82)
        for iname in ('inv', 'npinv', 'reg') + (('diag',) if nz == 1 else ()):
            m = InvKF('regular-%s-%dx%d' % (iname, nx, nz), s, [P_, U(0, 'col'), U(1, 'col', R=1), N_, ('inv', 'reg'), ('inv', 'inv')], d)
            m.iname = iname
            out.append(m)
            m = InvKF('regular-seq-%s-%dx%d' % (iname, nx, nz), s, [P_] + [('s', z, p) for p in parts(nz) for z in (0, 1)], d)
            m.iname = iname
            out.append(m)
        out.append(RecInfo('info-%dx%d' % (nx, nz), s, [P_, Pr(u=0), U(0, 'col'), U(1, 'col', R=1), N_], d, 'col', ctl=True))
        for xf in ('col', '1d'):
            out.append(EKFX('predict_x-%dx%d-%s' % (nx, nz, xf), s, [P_, Pr(u=0), ('u', 0, 'plain', None, False), ('pu', 1, 'plain', None), ('pu', 2, 'tuple', 1), ('pu', None, 'plain', 0), ('set', 'F', 1)], d, xf, ctl=True))
        for fam in (('user',), ('merwe', .5, 2., 1.)):
            ops = [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), ('n',)]
            out.append(RegSP('ukf-reg-%s-%dx%d' % (fam[0], nx, nz), NL(s), fam, ops, d))
            if nz > 1:
                ds = Dup(nx, nz, 1, 83)
                out.append(PinvSP('ukf-pinv-%s-%dx%d' % (fam[0], nx, nz), DupNL(ds), fam, ops, d, exact=False))
        out.append(SP('points-user-%dx%d' % (nx, nz), NL(s), ('user',), [Pp(), Pp(.2, .3), Pp(None, None, 'fx'), Uu(0), Uu(1, 1), Uu(2, None, None, 'hx'), ('set', 'P', 1)], d))
        out.append(SP('points-user-angle-%dx%d' % (nx, nz), Angle(s), ('user',), [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), ('n',)], d))
        en = [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('n',)]
        out.append(RegEN('enkf-reg-%dx%d' % (nx, nz), NL(s), 4, [gen(k) for k in range(4)], en, d))
        if nz > 1:
            out.append(PinvEN('enkf-pinv-%dx%d' % (nx, nz), DupNL(Dup(nx, nz, 0, 83)), 5, [gen(k) for k in range(4)], en, d))
    L = 5 if th else 4
    out.append(engine.GridFn('rts', [(nx, i, q, xf, w) for nx in (1, 2, 3) for q in ('full', 'rank1', 'noQ') for i in (('pinv', 'reg') + (('inv', 'npinv') if q != 'rank1' else ())) for xf in ('col', '1d')
                                     for w in seqs((0, 1, None), L)], wrap(rts_check)))
    out.append(engine.GridFn('rts-ukf', [(nx, i, fam, w) for nx in (1, 2, 3) for i in ('inv', 'npinv', 'reg') for fam in (('merwe', .5, 2., 1.), ('user',), ('simplex',)) for w in seqs((0, 1), L)], wrap(urts_check)))
    out.append(engine.GridFn('batch', [(nx, nz, r, xf, i, first, w) for nx, nz in ((1, 2), (2, 2), (2, 3)) for r in (0, 1) for xf in ('col', '1d') for i in ('pinv', 'reg') for first in (False, True)
                                       for w in seqs((0, 1, None), 3)], wrap(batch_check)))
    return out
