"""interacting multiple models and multiple-model banks over small linear modes.
ops: ('p', u) ('u', z, form, R, H) ('n',) ('q',)"""
import math
import sys as _sys
import numpy as np
from . import engine, refs
from .refs import A
from .lin import zform, zval

TINY = _sys.float_info.min


def lik(y, S):
    """the likelihood filters report: exp of the log-likelihood, never zero"""
    l = refs.gauss_logpdf(y, S)
    return math.exp(l) if l > -745 else TINY


class Bank(engine.Model):
    """modes: list of (F index, Q index, Q factor, R index, H index, x index, P index)"""
    atol = 1e-9

    def __init__(self, name, s, modes, mu, M, ops, depth, kind='kf', xform='col', ctl=False, lasso=None):
        self.name, self.s, self.modes, self.mu0, self.M, self.ops, self.depth = name, s, modes, mu, M, ops, depth
        self.kind, self.xform, self.ctl, self.lasso = kind, xform, ctl, lasso

    def lasso_ok(self, w):
        k = [o[0] for o in w]
        if 'u' not in k or k[0] != 'p':
            return False
        return all(self.follows(a, b) for a, b in zip(k, k[1:] + k[:1]))

    def follows(self, a, b):
        return not (b == 'u' and a != 'p')

    def mats(self, m):
        s = self.s
        f, q, qf, r, h, x, p = m
        return dict(F=s.F[f], Q=s.Q[q] * qf, R=s.R[r], H=s.H[h], x=s.x1 if x else s.x0, P=s.P1 if p else s.P0)

    def xs(self, v):
        return A(v).reshape(-1, 1).copy() if self.xform == 'col' else A(v).copy()

    def make_filters(self, c):
        s = self.s
        out = []
        for m in self.modes:
            d = self.mats(m)
            if self.kind == 'kf':
                from filterpy.kalman import KalmanFilter
                f = KalmanFilter(s.nx, s.nz, s.nu if self.ctl else 0)
                f.F = c.give(d['F'].copy(), 'F')
                f.H = c.give(d['H'].copy(), 'H')
                if self.ctl:
                    f.B = c.give(s.B[0].copy(), 'B')
            elif self.kind == 'ukf':
                from filterpy.kalman import UnscentedKalmanFilter, MerweScaledSigmaPoints
                f = UnscentedKalmanFilter(s.nx, s.nz, 1., hx=lambda x, H=d['H']: H.dot(x), fx=lambda x, dt, F=d['F']: F.dot(x),
                                          points=MerweScaledSigmaPoints(s.nx, .5, 2., 1.))
            f.x = c.give(self.xs(d['x']), 'initial x of a mode')
            f.P = c.give(d['P'].copy(), 'initial P of a mode')
            f.Q = c.give(d['Q'].copy(), 'Q')
            f.R = c.give(d['R'].copy(), 'R')
            out.append(f)
        return out

    def mix(self, xs, Ps, w):
        x = sum(a * b for a, b in zip(w, xs))
        P = sum(a * (p + np.outer(b - x, b - x)) for a, b, p in zip(w, xs, Ps))
        return x, P

    def init(self):
        D = [self.mats(m) for m in self.modes]
        mu = A(self.mu0) / sum(self.mu0)
        return dict(xs=[d['x'] for d in D], Ps=[d['P'] for d in D], D=D, mu=mu, last=None, ll=None, lp=np.log(np.maximum(mu, 1e-300)))

    def modal(self, st, op, xs, Ps):
        """predict or update of every mode"""
        s = self.s
        X, PP, L, LL = [], [], [], []
        for d, x, P in zip(st['D'], xs, Ps):
            if op[0] == 'p':
                Bu = None if op[1] is None or not self.ctl else s.B[0].dot(s.u[op[1]])
                x, P = refs.predict(x, P, d['F'], d['Q'], Bu)
            else:
                _, z, form, R, H = op
                Rm = d['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R]
                Hm = (d['H'] if self.bankH is None else s.H[self.bankH]) if H is None else s.H[H]
                x, P, y, S, _ = refs.update(x, P, zval(s.z[z], form), Hm, Rm)
                L.append(lik(y, S))
                LL.append(refs.gauss_logpdf(y, S))
            X.append(x)
            PP.append(P)
        return X, PP, A(L), A(LL)

    bankH = None

    def zarg(self, c, op):
        return c.give(zform(self.s.z[op[1]], op[2]), 'z')

    def common(self, c):
        o = c.o
        r = {n: getattr(o, n.rstrip('!')) for n in ('x!', 'P!', 'x_prior', 'P_prior', 'x_post', 'P_post')}
        r['modes x'] = A([f.x for f in o.filters])
        r['modes P'] = A([f.P for f in o.filters])
        for n in ('x', 'P'):
            c.hold(getattr(o, n), n)
        for f in o.filters:
            c.hold(f.x, 'mode x')
            c.hold(f.P, 'mode P')
        return r


class IMM(Bank):
    def omega(self, mu):
        cb = mu.dot(self.M)
        return cb, A([[self.M[i][j] * mu[i] / cb[j] for j in range(len(mu))] for i in range(len(mu))])

    def step(self, st, op):
        if op[0] == 'u' and st['last'] not in ('p', None):
            return None
        t = dict(st, last=op[0])
        e = {}
        n = len(st['mu'])
        if op[0] == 'p':
            _, om = self.omega(st['mu'])
            mixed = [self.mix(st['xs'], st['Ps'], om[:, j]) for j in range(n)]
            t['xs'], t['Ps'], _, _ = self.modal(st, op, [m[0] for m in mixed], [m[1] for m in mixed])
        elif op[0] == 'u':
            if self.kind == 'ukf' and st['last'] is None:
                return None
            t['xs'], t['Ps'], L, LL = self.modal(st, op, st['xs'], st['Ps'])
            if ((LL < -690) & (LL > -750)).any():
                return None            # denormal numbers
            cb, _ = self.omega(st['mu'])
            w = cb * L
            t['mu'] = w / w.sum()
            e['likelihood'] = lambda v, L=L: None if engine.close(v, L, 1e-6, 1e-300) else 'mode likelihoods should be %r' % (L,)
        x, P = self.mix(t['xs'], t['Ps'], t['mu'])
        if t['mu'].min() < 1e-250 and (self.M == 0).any():
            return None                # an impossible mode: mixing weights undefined
        if op[0] in 'pu':
            e.update({'x!': self.xs(x), 'P!': P, 'modes x': A(t['xs']), 'modes P': A(t['Ps']), 'mu': t['mu'], 'sum': 1.})
            e['x_prior' if op[0] == 'p' else 'x_post'] = x
            e['P_prior' if op[0] == 'p' else 'P_post'] = P
            cb, om = self.omega(t['mu'])
            e['cbar'], e['omega'] = cb, om
            t['xP'] = (x, P)
        else:
            if 'xP' in st:
                e.update({'x!': self.xs(st['xP'][0]), 'P!': st['xP'][1], 'mu': st['mu']})
        return t, e

    def fresh(self):
        from filterpy.kalman import IMMEstimator
        c = engine.Ctx()
        c.o = IMMEstimator(self.make_filters(c), c.give(A(self.mu0).copy() if self.name[-1] in '02468' else list(self.mu0), 'mu'), c.give(A(self.M).copy(), 'M'))
        return c

    def do(self, c, op):
        if op[0] == 'p':
            if op[1] is None:
                c.o.predict()
            else:
                u = self.s.u[op[1]]
                c.o.predict(c.give(u.reshape(-1, 1).copy() if self.xform == 'col' else u.copy(), 'u'))
        elif op[0] == 'u':
            c.o.update(self.zarg(c, op))
        elif op[0] == 'n':
            c.o.update(None)
        elif op[0] == 'q':
            repr(c.o)
        r = self.common(c)
        o = c.o
        r.update(mu=o.mu, sum=float(np.sum(o.mu)), cbar=o.cbar, omega=o.omega, likelihood=o.likelihood)
        r['omega'] = A(o.omega)
        c.hold(o.mu, 'mu')
        return r


class MMAE(Bank):
    def follows(self, a, b):
        return True

    def step(self, st, op):
        t = dict(st, last=op[0])
        e = {}
        if op[0] in 'pu':
            t['xs'], t['Ps'], L, LL = self.modal(st, op, st['xs'], st['Ps'])
            if op[0] == 'u':
                if LL.min() < -690:
                    return None            # negligible
                lp = st['lp'] + LL
                lp -= lp.max()
                if lp.min() < -550:
                    return None            # negligible
                t['lp'] = lp - math.log(np.exp(lp).sum())
                t['mu'] = np.exp(t['lp'])
                e['z'] = zval(self.s.z[op[1]], op[2])
            x, P = self.mix(t['xs'], t['Ps'], t['mu'])
            e.update({'x!': self.xs(x), 'P!': P, 'modes x': A(t['xs']), 'modes P': A(t['Ps']), 'p': t['mu'], 'sum': 1.})
            e['x_prior' if op[0] == 'p' else 'x_post'] = x
            e['P_prior' if op[0] == 'p' else 'P_post'] = P
            t['xP'] = (x, P)
        else:
            e['p'] = st['mu']
            if 'xP' in st:
                e.update({'x!': self.xs(st['xP'][0]), 'P!': st['xP'][1]})
        return t, e

    def fresh(self):
        from filterpy.kalman import MMAEFilterBank
        c = engine.Ctx()
        kw = {} if self.bankH is None else {'H': c.give(self.s.H[self.bankH].copy(), 'H')}
        p = c.give(A(self.mu0).copy(), 'p') if self.name[-1] in '02468' else tuple(self.mu0)
        c.o = MMAEFilterBank(self.make_filters(c), p, self.s.nx, **kw)
        return c

    def do(self, c, op):
        s = self.s
        if op[0] == 'p':
            if op[1] is None:
                c.o.predict()
            else:
                u = s.u[op[1]]
                c.o.predict(c.give(u.reshape(-1, 1).copy() if self.xform == 'col' else u.copy(), 'u'))
        elif op[0] == 'u':
            _, z, form, R, H = op
            kw = {}
            if R is not None:
                kw['R'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R].copy(), 'R')
            if H is not None:
                kw['H'] = c.give(s.H[H].copy(), 'H')
            c.o.update(self.zarg(c, op), **kw)
        elif op[0] == 'n':
            c.o.update(None)
        elif op[0] == 'q':
            repr(c.o)
        r = self.common(c)
        r.update(p=c.o.p.copy(), sum=float(np.sum(c.o.p)))
        if op[0] == 'u':
            r['z'] = c.o.z
        return r
