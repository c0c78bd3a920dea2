"""drivers of the other linear-Gaussian filters, checked against the same reference as KalmanFilter"""
import math
import numpy as np
from . import engine, refs
from .lin import Lin, P_, U, Pr, N_
from .refs import A


def book(o, kf, keys):
    for k in keys:
        o[k] = getattr(kf, k.rstrip('!'))


class SqrtKF(Lin):
    keys = ('x!', 'P!', 'y', 'S', 'K')
    hold_roots = True

    def fresh(self):
        from filterpy.kalman import SquareRootKalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = SquareRootKalmanFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        self.setup(c.o, c)
        return c

    def do(self, c, op):
        k = op[0]
        s = self.sys
        if k == 'p':
            kw = self.pargs(c, op)
            c.o.predict(**kw)
        elif k == 'u':
            z, kw = self.uargs(c, op)
            if 'R' in kw:
                R = kw.pop('R')
                kw['R2'] = math.sqrt(R) if np.isscalar(R) else c.give(np.linalg.cholesky(R), 'R2')
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'set':
            self.do_set(c, op)
        elif k == 'q':
            repr(c.o)
            c.o.residual_of(np.ones((s.nz, 1)))
            c.o.measurement_of_state(np.ones((s.nx, 1)))
        o = self.observe(c, op)
        f = c.o
        for n in ('Q', 'R', 'x_prior', 'P_prior', 'x_post', 'P_post', 'SI'):
            o[n] = getattr(f, n)
        for n in ('P', 'Q', 'R'):
            r = getattr(f, n + '1_2')
            o[n + '1_2'] = r.dot(r.T)
            if self.hold_roots:
                c.hold(r, n + '1_2')
        o['S1_2'] = f.S1_2.dot(f.S1_2.T)
        o['res'] = f.residual_of(np.full((s.nz, 1), .7))
        o['mos'] = f.measurement_of_state(np.arange(1., s.nx + 1).reshape(-1, 1))
        return o

    def expect(self, st, op, t):
        e = Lin.expect(self, st, op, t)
        s = self.sys
        e['Q'] = e['Q1_2'] = t['Q']
        e['R'] = e['R1_2'] = t['R']
        e['P1_2'] = t['P']
        for a, b in (('x_prior', 'xp'), ('P_prior', 'Pp'), ('x_post', 'xq'), ('P_post', 'Pq')):
            if t[b] is not None:
                e[a] = t[b]
        if t['S'] is not None:
            e['S'] = e['S1_2'] = t['S']
            e['SI'] = np.linalg.inv(t['S'])
        e['res'] = .7 - t['H'].dot(t['x'])
        e['mos'] = t['H'].dot(np.arange(1., s.nx + 1))
        return e


class Info(Lin):
    keys = ('x!', 'P!', 'P_inv!', 'y')
    compute = True

    def lasso_ok(self, w):
        # predictions only: the information vanishes numerically (outside the property)
        return any(o[0] == 'u' for o in w)

    def fresh(self):
        from filterpy.kalman import InformationFilter
        s = self.sys
        c = engine.Ctx()
        c.o = InformationFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0,
                                compute_log_likelihood=self.compute)
        kf = c.o
        kf.x = c.give(self.xs(np.zeros(s.nx) if self.zero_x else s.x0), 'initial x')
        kf.P_inv = c.give(np.linalg.inv(s.P0), 'initial P_inv')
        kf.F = c.give(s.F[0].copy(), 'F')
        kf.Q = c.give(s.Q[0].copy(), 'Q')
        kf.H = c.give(s.H[0].copy(), 'H')
        kf.R_inv = c.give(np.linalg.inv(s.R[0]), 'R_inv')
        if self.ctl:
            kf.B = c.give(s.B[0].copy(), 'B')
        return c

    def do_set(self, c, op):
        s = self.sys
        _, a, i = op[:3]
        how = op[3] if len(op) > 3 else None
        if a in 'PR':
            v = 1. / i if how == 'mul' else np.linalg.inv((s.P1 if i == 1 else s.P0) if a == 'P' else s.R[i])
            c.assign(c.o, a + '_inv', v, how)
        else:
            Lin.do_set(self, c, op)

    def do(self, c, op):
        k = op[0]
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            if 'R' in kw:
                R = kw.pop('R')
                kw['R_inv'] = (1. / R if R else 0.) if np.isscalar(R) else c.give(np.linalg.inv(R), 'R_inv')
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'set':
            self.do_set(c, op)
        elif k == 'q':
            repr(c.o)
        o = self.observe(c, op)
        c.hold(c.o.P_inv, 'P_inv')
        for n in ('x_prior', 'P_inv_prior', 'x_post', 'P_inv_post', 'log_likelihood', 'likelihood', 'K', 'S', 'F'):
            o[n] = getattr(c.o, n)
        return o

    def step(self, st, op):
        if op[0] == 'u' and op[3] == 'z':           # a measurement without any information
            t = dict(st, last='n', xq=st['x'], Pq=st['P'])
            return t, self.expect(st, op, t)
        t, e = Lin.step(self, st, op)
        if op[0] == 'u' and self.compute:
            t['logl'] = refs.gauss_logpdf(t['y'], t['S'])
            e = self.expect(st, op, t)
        return t, e

    def expect(self, st, op, t):
        inv = np.linalg.inv
        e = {'x!': self.xs(t['x']), 'P!': t['P'], 'P_inv!': inv(t['P']), 'F': t['F']}
        if t['last'] == 'u':
            e['y'] = t['y']
            e['K'] = t['K']
        for a, b in (('x_prior', 'xp'), ('x_post', 'xq')):
            if t[b] is not None:
                e[a] = t[b]
        for a, b in (('P_inv_prior', 'Pp'), ('P_inv_post', 'Pq')):
            if t[b] is not None:
                e[a] = inv(t[b])
        if t.get('logl') is not None and t['last'] == 'u':
            e['log_likelihood'] = t['logl']
            e['likelihood'] = lambda v, l=t['logl']: None if abs(v - max(math.exp(l), 2.3e-308)) <= 1e-6 * v else \
                'likelihood must be exp of %r' % l
        return e


class Fading(Lin):
    keys = ('x!', 'P!', 'y', 'S', 'K')

    def fresh(self):
        from filterpy.kalman import FadingKalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = FadingKalmanFilter(alpha=self.alpha0, dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        al, self.alpha0 = self.alpha0, 1.
        self.setup(c.o, c)
        self.alpha0 = al
        return c

    def do(self, c, op):
        k = op[0]
        s = self.sys
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'set':
            self.do_set(c, op)
        elif k == 'q':
            if op[1] == 'repr':
                repr(c.o)
            else:
                c.o.get_prediction(c.give(self.us(0), 'u'))
        o = self.observe(c, op)
        for n in ('x_prior', 'P_prior', 'x_post', 'P_post', 'SI', 'alpha'):
            o[n] = getattr(c.o, n)
        o['res'] = c.o.residual_of(np.full((s.nz, 1), .7))
        o['mos'] = c.o.measurement_of_state(np.arange(1., s.nx + 1).reshape(-1, 1))
        gx, gP = c.o.get_prediction()
        o['gx'], o['gP'] = gx, gP
        c.hold(gx, 'get_prediction x')
        c.hold(gP, 'get_prediction P')
        if self.ctl:
            ux, uP = c.o.get_prediction(c.give(self.us(0), 'u'))
            o['gux'], o['guP'] = ux, uP
        return o

    def expect(self, st, op, t):
        e = Lin.expect(self, st, op, t)
        s = self.sys
        for a, b in (('x_prior', 'xp'), ('P_prior', 'Pp'), ('x_post', 'xq'), ('P_post', 'Pq')):
            if t[b] is not None:
                e[a] = t[b]
        if t['S'] is not None:
            e['S'] = t['S']
            e['SI'] = np.linalg.inv(t['S'])
        e['alpha'] = t['alpha']
        e['res'] = .7 - t['H'].dot(t['x'])
        e['mos'] = t['H'].dot(np.arange(1., s.nx + 1))
        e['gx'], e['gP'] = refs.predict(t['x'], t['P'], t['F'], t['Q'], None, t['alpha'])
        if self.ctl:
            e['gux'], e['guP'] = refs.predict(t['x'], t['P'], t['F'], t['Q'], t['B'].dot(s.u[0]), t['alpha'])
        return e


class EKFLin(Lin):
    """the extended filter with linear functions"""
    keys = ('x!', 'P!', 'y', 'S', 'K')

    def fresh(self):
        from filterpy.kalman import ExtendedKalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = ExtendedKalmanFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        c.H = s.H[0]
        self.setup(c.o, c)
        return c

    def setup(self, kf, c):
        Lin.setup(self, kf, c)
        del kf.H

    def step(self, st, op):
        if op[0] == 'pu':
            t, _ = Lin.step(self, st, ('p', op[2], None, None, None))
            return Lin.step(self, t, ('u', op[1], 'col', None, None))
        return Lin.step(self, st, op)

    def do(self, c, op):
        k = op[0]
        s = self.sys
        J = lambda x: c.H
        h = lambda x: np.dot(c.H, x)
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            H = kw.pop('H', c.H)
            c.o.update(z, lambda x: H, lambda x: np.dot(H, x), **kw)
        elif k == 'pu':
            kw = {} if op[2] is None else {'u': c.give(self.us(op[2]), 'u')}
            z = s.z[op[1]].reshape(-1, 1) if self.xform == 'col' else s.z[op[1]]
            c.o.predict_update(c.give(z.copy(), 'z'), J, h, **kw)
        elif k == 'n':
            c.o.update(None, J, h)
        elif k == 'set':
            if op[1] == 'H':
                c.H = s.H[op[2]]
            else:
                self.do_set(c, op)
        elif k == 'q':
            repr(c.o)
        o = self.observe(c, op)
        for n in ('x_prior', 'P_prior', 'x_post', 'P_post', 'SI'):
            o[n] = getattr(c.o, n)
        return o

    def expect(self, st, op, t):
        e = Lin.expect(self, st, op, t)
        for a, b in (('x_prior', 'xp'), ('P_prior', 'Pp'), ('x_post', 'xq'), ('P_post', 'Pq')):
            if t[b] is not None:
                e[a] = t[b]
        if t['S'] is not None:
            e['SI'] = np.linalg.inv(t['S'])
        return e


class Seq(Lin):
    """KalmanFilter.update_sequential: ('s', start, length, z, form, R, H)"""
    keys = ('x!', 'P!')
    block_R = None

    def setup(self, kf, c):
        Lin.setup(self, kf, c)
        if self.block_R is not None:
            kf.R = c.give(self.block_R.copy(), 'R')

    def init(self):
        st = Lin.init(self)
        if self.block_R is not None:
            st['R'] = self.block_R
        return st

    def fresh(self):
        from filterpy.kalman import KalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = KalmanFilter(dim_x=s.nx, dim_z=s.nz)
        self.setup(c.o, c)
        return c

    def step(self, st, op):
        s = self.sys
        if op[0] != 's':
            return Lin.step(self, st, op)
        _, a, n, z, form, R, H = op
        b = a + n
        zv = s.z[z][a:b]
        Rm = st['R'][a:b, a:b] if R is None else np.eye(n) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R][a:b, a:b]
        Hm = (st['H'] if H is None else s.H[H])[a:b]
        t = dict(st, last='s')
        if self.degenerate(st['P'], Hm, Rm):
            return None
        t['x'], t['P'], y, _, K = refs.update(st['x'], st['P'], zv, Hm, Rm)
        e = self.expect(st, op, t)
        e.update(yi=y, Ki=K, zi=zv, x_post=t['x'], P_post=t['P'])
        return t, e

    def do(self, c, op):
        s = self.sys
        k = op[0]
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'set':
            self.do_set(c, op)
        elif k == 's':
            _, a, n, z, form, R, H = op
            b = a + n
            v = s.z[z][a:b]
            v = float(v[0]) if form == 'scalar' else v.reshape(-1, 1).copy() if form == 'col' else \
                [float(q) for q in v] if form == 'list' else v.copy()
            kw = {}
            if R is not None:
                kw['R_i'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(s.R[R][a:b, a:b].copy(), 'R_i')
            if H is not None:
                h = s.H[H][a:b].copy()
                kw['H_i'] = c.give(h[0] if n == 1 and form == 'scalar' else h, 'H_i')
            c.o.update_sequential(a, c.give(v, 'z_i'), **kw)
        o = self.observe(c, op)
        if k == 's':
            o.update(yi=c.o.y[a:b], Ki=c.o.K[:, a:b], zi=np.asarray(c.o.z[a:b], dtype=float),
                     x_post=c.o.x_post, P_post=c.o.P_post)
        return o


class SeqJoint(Lin):
    """whole partitions: ('part', ((start, length), ...), z, R, H): the blocks in the given order equal one joint update"""
    keys = ('x!', 'P!')

    def setup(self, kf, c):
        Lin.setup(self, kf, c)
        kf.R = c.give(self.R0().copy(), 'R')

    def R0(self, i=0):
        R = self.sys.R[i]
        return np.diag(np.diag(R))

    def init(self):
        st = Lin.init(self)
        st['R'] = self.R0()
        return st

    def fresh(self):
        return Seq.fresh(self)

    def step(self, st, op):
        if op[0] != 'part':
            return Lin.step(self, st, op)
        s = self.sys
        _, blocks, z, R, H = op
        Rm = st['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else self.R0(R)
        Hm = st['H'] if H is None else s.H[H]
        t = dict(st, last='s')
        t['x'], t['P'], _, _, _ = refs.update(st['x'], st['P'], s.z[z], Hm, Rm)
        e = self.expect(st, op, t)
        e['z'] = s.z[z]
        return t, e

    def do(self, c, op):
        s = self.sys
        if op[0] == 'part':
            _, blocks, z, R, H = op
            for a, n in blocks:
                kw = {}
                if R is not None:
                    kw['R_i'] = refs.scal(s.sr, R) if R in refs.SZ else c.give(self.R0(R)[a:a + n, a:a + n].copy(), 'R_i')
                if H is not None:
                    kw['H_i'] = c.give(s.H[H][a:a + n].copy(), 'H_i')
                zi = float(s.z[z][a]) if n == 1 else c.give(s.z[z][a:a + n].copy(), 'z_i')
                c.o.update_sequential(a, zi, **kw)
            o = self.observe(c, op)
            o['z'] = np.asarray(c.o.z, dtype=float)
            return o
        return Seq.do(self, c, op)


class Steady(Lin):
    """steady-state operations: ('sp', u, B) ('su', z, form) ('sn',)  and correlated ('c', z, form, R, H) ('cn',)
    mixed with the standard ones"""
    keys = ('x!', 'P!', 'K', 'y')

    def fresh(self):
        from filterpy.kalman import KalmanFilter
        s = self.sys
        c = engine.Ctx()
        c.o = KalmanFilter(dim_x=s.nx, dim_z=s.nz, dim_u=s.nu if self.ctl else 0)
        self.setup(c.o, c)
        c.o.K = c.give(self.K0(), 'assigned K')
        return c

    def K0(self):
        return (0.3 * self.sys.H[1].T if getattr(self.sys, 'K0', None) is None else self.sys.K0).copy()

    def init(self):
        st = Lin.init(self)
        st['K'] = self.K0()
        return st

    def step(self, st, op):
        s = self.sys
        k = op[0]
        t = dict(st)
        if k == 'sp':
            _, u, B = op
            Bm = st['B'] if B is None else s.B[B]
            t['x'] = st['F'].dot(st['x'])
            if u is not None and Bm is not None:
                t['x'] = t['x'] + Bm.dot(s.u[u])
            t['xp'], t['Pp'] = t['x'], t['P']
            t['last'] = 'p'
        elif k == 'su':
            from .lin import zval
            zv = zval(s.z[op[1]], op[2])
            t['y'] = zv - st['H'].dot(st['x'])
            t['x'] = st['x'] + st['K'].dot(t['y'])
            t['xq'], t['Pq'], t['z'] = t['x'], t['P'], zv
            t['last'] = 'u'
        elif k in ('sn', 'cn'):
            return Lin.step(self, st, ('n',))
        elif k == 'c':
            from .lin import zval
            _, z, form, R, H = op
            zv = zval(s.z[z], form)
            Rm = st['R'] if R is None else np.eye(s.nz) * refs.scal(s.sr, R) if R in refs.SZ else s.R[R]
            Hm = st['H'] if H is None else s.H[H]
            if self.degenerate(st['P'], Hm, Rm):
                return None
            t['x'], t['P'], t['y'], t['S'], t['K'] = refs.update(st['x'], st['P'], zv, Hm, Rm, st['M'])
            t['xq'], t['Pq'], t['z'] = t['x'], t['P'], zv
            t['last'] = 'u'
        elif k == 'set' and op[1] == 'K':
            t['K'] = st['K'] * op[2] if op[3:] == ('mul',) else self.K0() * op[2]
            t['last'] = 'set'
        else:
            return Lin.step(self, st, op)
        return t, self.expect(st, op, t)

    def expect(self, st, op, t):
        e = {'x!': self.xs(t['x']), 'P!': t['P'], 'K': t['K']}
        if t['last'] == 'u':
            e['y'] = t['y']
        for a, b in (('x_prior', 'xp'), ('P_prior', 'Pp'), ('x_post', 'xq'), ('P_post', 'Pq')):
            if t[b] is not None:
                e[a] = t[b]
        if op[0] in ('u', 'c'):
            e['S'] = t['S']
            e['SI'] = np.linalg.inv(t['S'])
        return e

    def do(self, c, op):
        from .lin import zform
        s = self.sys
        k = op[0]
        if k == 'p':
            c.o.predict(**self.pargs(c, op))
        elif k == 'u':
            z, kw = self.uargs(c, op)
            c.o.update(z, **kw)
        elif k == 'n':
            c.o.update(None)
        elif k == 'sp':
            kw = {}
            if op[1] is not None:
                kw['u'] = c.give(self.us(op[1]), 'u')
            if op[2] is not None:
                kw['B'] = c.give(s.B[op[2]].copy(), 'B')
            c.o.predict_steadystate(**kw)
        elif k == 'su':
            c.o.update_steadystate(c.give(zform(s.z[op[1]], op[2]), 'z'))
        elif k == 'sn':
            c.o.update_steadystate(None)
        elif k == 'cn':
            c.o.update_correlated(None)
        elif k == 'c':
            z, kw = self.uargs(c, ('u',) + tuple(op[1:]))
            c.o.update_correlated(z, **kw)
        elif k == 'set' and op[1] == 'K':
            how = op[3] if len(op) > 3 else None
            c.assign(c.o, 'K', op[2] if how == 'mul' else self.K0() * op[2], how)
        elif k == 'set':
            self.do_set(c, op)
        o = self.observe(c, op)
        for n in ('x_prior', 'P_prior', 'x_post', 'P_post', 'S', 'SI'):
            o[n] = getattr(c.o, n)
        return o


class SteadyProc(Lin):
    """procedural predict_steadystate / update_steadystate"""
    keys = ('x!',)

    def K0(self):
        return (0.3 * self.sys.H[1].T if getattr(self.sys, 'K0', None) is None else self.sys.K0).copy()

    def fresh(self):
        c = engine.Ctx()
        c.x = c.give(self.xs(self.sys.x0), 'initial x')
        return c

    def step(self, st, op):
        s = self.sys
        t = dict(st)
        k = op[0]
        if k == 'sp':
            t['x'] = s.F[0].dot(st['x'])
            if op[1] is not None:
                t['x'] = t['x'] + s.B[op[2]].dot(s.u[op[1]])
        elif k == 'su':
            from .lin import zval
            t['x'] = st['x'] + self.K0().dot(zval(s.z[op[1]], op[2]) - s.H[0].dot(st['x']))
        return t, {'x!': self.xs(t['x'])}

    def do(self, c, op):
        from filterpy.kalman import predict_steadystate, update_steadystate
        from .lin import zform
        s = self.sys
        k = op[0]
        if k == 'sp':
            kw = {}
            if op[1] is not None:
                kw = dict(u=c.give(self.us(op[1]), 'u'), B=c.give(s.B[op[2]].copy(), 'B'))
            c.x = predict_steadystate(c.x, F=c.give(s.F[0].copy(), 'F'), **kw)
        else:
            z = None if k == 'sn' else c.give(zform(s.z[op[1]], op[2]), 'z')
            c.x = update_steadystate(c.x, z, K=c.give(self.K0(), 'K'), H=c.give(s.H[0].copy(), 'H'))
        c.hold(c.x, 'x')
        return {'x!': c.x}


class Info0(engine.Model):
    """the information filter started with (partly) no information: exact information-form recursion
    Y, y  (Y = inverse covariance, y = Y x), defined also while Y has no inverse.
    ops: ('p',) ('p', u) ('u', z, R) ('n',) ('set', attr, i)"""
    rtol = 1e-6
    atol = 1e-8

    def __init__(self, name, s, Y0, ops, depth, ctl=False, xform='col', lasso=None):
        self.name, self.s, self.Y0, self.ops, self.depth, self.ctl, self.xform, self.lasso = name, s, A(Y0), ops, depth, ctl, xform, lasso

    def lasso_ok(self, w):
        return any(o[0] == 'u' for o in w)

    def init(self):
        s = self.s
        return dict(Y=self.Y0, y=self.Y0.dot(s.x0), F=s.F[0], Q=s.Q[0], H=s.H[0], R=s.R[0])

    def step(self, st, op):
        s = self.s
        t = dict(st)
        k = op[0]
        e = {}
        if k == 'p':
            G = np.linalg.inv(st['F'])
            M = G.T.dot(st['Y']).dot(G)
            L = np.linalg.inv(np.eye(s.nx) + M.dot(st['Q']))
            t['Y'] = refs.sym(L.dot(M))
            t['y'] = L.dot(G.T).dot(st['y'])
            if op[1:]:
                t['y'] = t['y'] + t['Y'].dot(s.B[0].dot(s.u[op[1]]))
            e['P_inv_prior'] = t['Y']
        elif k == 'u':
            R = np.linalg.inv(st['R'] if op[2] is None else s.R[op[2]])
            t['Y'] = refs.sym(st['Y'] + st['H'].T.dot(R).dot(st['H']))
            t['y'] = st['y'] + st['H'].T.dot(R).dot(s.z[op[1]])
            e['P_inv_post'] = t['Y']
        elif k == 'set':
            t[op[1]] = getattr(s, op[1])[op[2]]
        e.update({'Y!': t['Y'], 'info': t['y']})
        w = np.linalg.eigvalsh(t['Y'])
        if w[0] > 1e-4 * max(1., w[-1]):
            e['x'] = np.linalg.solve(t['Y'], t['y'])
            e['P'] = np.linalg.inv(t['Y'])
        if k == 'u' and self.determined(st['Y']):
            x = np.linalg.solve(st['Y'], st['y'])
            e['logl'] = refs.gauss_logpdf(s.z[op[1]] - st['H'].dot(x),
                                          st['H'].dot(np.linalg.inv(st['Y'])).dot(st['H'].T) + (st['R'] if op[2] is None else s.R[op[2]]))
        return t, e

    @staticmethod
    def determined(Y):
        w = np.linalg.eigvalsh(Y)
        return w[0] > 1e-4 * max(1., w[-1])

    def fresh(self):
        from filterpy.kalman import InformationFilter
        s = self.s
        c = engine.Ctx()
        kf = c.o = InformationFilter(s.nx, s.nz, s.nu if self.ctl else 0)
        kf.x = c.give(s.x0.copy() if self.xform == '1d' else s.x0.reshape(-1, 1).copy(), 'x')
        kf.P_inv = c.give(self.Y0.copy(), 'P_inv')
        kf.F = c.give(s.F[0].copy(), 'F')
        kf.Q = c.give(s.Q[0].copy(), 'Q')
        kf.H = c.give(s.H[0].copy(), 'H')
        kf.R_inv = c.give(np.linalg.inv(s.R[0]), 'R_inv')
        if self.ctl:
            kf.B = c.give(s.B[0].copy(), 'B')
        return c

    def do(self, c, op):
        s, k, o = self.s, op[0], c.o
        col = lambda v: v.copy() if self.xform == '1d' else v.reshape(-1, 1).copy()
        if k == 'p':
            if op[1:]:
                o.predict(c.give(col(s.u[op[1]]), 'u'))
            else:
                o.predict()
        elif k == 'u':
            if op[2] is None:
                o.update(c.give(col(s.z[op[1]]), 'z'))
            else:
                o.update(c.give(col(s.z[op[1]]), 'z'), R_inv=c.give(np.linalg.inv(s.R[op[2]]), 'R_inv'))
        elif k == 'n':
            o.update(None)
        elif op[1] == 'R':
            c.assign(o, 'R_inv', np.linalg.inv(s.R[op[2]]), None)
        else:
            c.assign(o, op[1], getattr(s, op[1])[op[2]], None)
        r = {'Y!': o.P_inv, 'info': np.dot(o.P_inv, o.x), 'x': o.x, 'P_inv_prior': o.P_inv_prior, 'P_inv_post': o.P_inv_post, 'logl': o.log_likelihood}
        try:
            r['P'] = o.P
        except np.linalg.LinAlgError:
            pass
        c.hold(o.x, 'x')
        c.hold(o.P_inv, 'P_inv')
        return r
