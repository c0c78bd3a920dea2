import numpy as np
from mc.engine import lengthen
from mc import engine
from mc.engine import GridFn, close
from mc.kfs import Steady, SteadyProc
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys
from mc import refs

ID = 'P14'
LEVEL = 'model_checking'
BOUND = ('every operation sequence of 5-9 operation alphabets mixing steady-state, correlated and standard operations up to depth 4 (quick) / 5 (thorough), '
         'periodic histories up to 40 operations; dim_x 1-4, dim_z 1-3, column and 1-D states; converged-gain equivalence over 12-step histories')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7']


def converge(case):
    """run the standard filter to convergence, then steady-state histories equal standard histories"""
    nx, nz, pat = case
    from filterpy.kalman import KalmanFilter
    s = Sys(nx, nz)
    F = s.F[0] / (1.3 * max(1., np.abs(np.linalg.eigvals(s.F[0])).max()))

    def mk():
        k = KalmanFilter(nx, nz)
        k.x, k.P, k.F, k.Q, k.H, k.R = s.x0.reshape(-1, 1).copy(), s.P0.copy(), F.copy(), s.Q[0].copy(), s.H[0].copy(), s.R[0].copy()
        for i in range(300):
            k.predict()
            k.update(s.z[i % 2].reshape(-1, 1))
        return k
    a, b = mk(), mk()
    P, K = b.P.copy(), b.K.copy()
    out = []
    for i, m in enumerate(pat):
        z = s.z[m].reshape(-1, 1)
        a.predict()
        b.predict_steadystate()
        a.update(z)
        b.update_steadystate(z)
        if not close(b.x, a.x, 1e-6, 1e-8):
            return ('steady-state x differs from standard x at step %d' % i, a.x, b.x), None
        if not (close(b.P, P) and close(b.K, K)):
            return ('steady-state update changed P or K', (P, K), (b.P, b.K)), None
        out.append(b.x.ravel())
    return None, np.concatenate(out)


def scalars(case):
    """the procedural steady-state functions with plain numbers (a one-dimensional filter), H and F left out or given"""
    from filterpy.kalman import predict_steadystate, update_steadystate
    H, F, B, u, K, zs, xf = case
    x = {'float': 1.25, 'int': 2, 'arr': np.array([1.25]), '0d': np.array(1.25)}[xf]
    r = float(np.ravel(x)[0])
    for i, z in enumerate(zs):
        kw = {k: v for k, v in (('F', F), ('u', u), ('B', B)) if v is not None}
        x = predict_steadystate(x, **kw)
        r = (1. if F is None else F) * r + (1. if B is None else B) * (0. if u is None else u)
        if np.size(x) != 1 or abs(float(np.ravel(x)[0]) - r) > 1e-12 * (1 + abs(r)):
            return ('predict_steadystate%r, step %d' % (case, i), r, x), None
        x = update_steadystate(x, z, K) if H is None else update_steadystate(x, z, K, H)
        if z is not None:
            r = r + K * (z - (1. if H is None else H) * r)
        if np.size(x) != 1 or abs(float(np.ravel(x)[0]) - r) > 1e-12 * (1 + abs(r)):
            return ('update_steadystate%r, step %d' % (case, i), r, x), None
    return None, r


def models(tier):
    import itertools
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]):
        for xf in ('col', '1d'):
            s = Sys(nx, nz, nu=1 + i % 2)
            nm = '%dx%d-%s' % (nx, nz, xf)
            f = xf
            out.append(Steady('steady-' + nm, s, [('sp', None, None), ('su', 0, f), ('su', 1, 'list'), ('sn',), ('set', 'K', 2),
                                                  ], d, xf, lasso=(2, 40)))
            out.append(Steady('ctl-' + nm, s, [('sp', None, None), ('sp', 0, None), ('sp', 1, 1), ('su', 0, '1d'), ('su', 2, 'row'), ('set', 'B', 2)],
                              d - 1, xf, ctl=True))
            out.append(Steady('mix-' + nm, s, [P_, ('sp', None, None), U(0, f), ('su', 1, f), ('c', 2, f, None, None), ('set', 'M', 1), ('cn',)],
                              d, xf))
            out.append(Steady('corr-' + nm, s, [P_, ('c', 0, f, None, None), ('c', 1, '1d', 1, None), ('c', 2, 'list', 's', None),
                                                ('c', 3, f, None, 1), ('set', 'M', 1), ('set', 'M', -1)], d, xf, lasso=(2, 40)))
            out.append(Steady('corrset-' + nm, s, [P_, ('c', 0, f, None, None), ('c', 1, 'i1d', 1, 1), ('set', 'M', 1), ('set', 'H', 1),
                                                   ('set', 'R', 1), ('set', 'P', 1)], d - 1, xf))
            out.append(Steady('zero-' + nm, s, [P_, ('sp', None, None), ('su', 0, f), ('c', 1, f, 'z', None), ('c', 2, f, None, None), ('set', 'K', 0.), ('set', 'M', 0.)], d - 1, xf))
            if i < 3:
                for a in 'xPFRHMK':
                    out.append(Steady('assign-%s-%s' % (a, nm), s, [('sp', None, None), ('su', 0, f), ('c', 1, f, None, None)] +
                                      [o for o in assigns(a) if not (a == 'M' and (o[2] == 0 or o[3] == 'mul'))], d - 1, xf))
            forms = ['col', '1d', 'row', 'list', 'listcol', 'icol', 'i1d'] + (['scalar', '0d', 'iscalar'] if nz == 1 else [])
            out.append(Steady('form-' + nm, s, [('set', 'M', 1)] + [('su', j % 4, g) for j, g in enumerate(forms)] +
                              [('c', j % 4, g, None, None) for j, g in enumerate(forms)], 2, xf))
            out.append(SteadyProc('proc-' + nm, s, [('sp', None, None), ('sp', 0, 0), ('sp', 1, 1), ('su', 0, f), ('su', 1, 'list'), ('sn',)], d, xf))
    out.append(GridFn('scalars', [(H, F, B, u, K, zs, xf) for H in (None, 1, 2., -.5) for F in (None, 1.25, 2) for B in (None, .5) for u in (None, 1.5) for K in (.5, 1, .2)
                                  for zs in itertools.product((None, 3, -1.75), repeat=3) for xf in ('float', 'int', 'arr', '0d')], scalars))
    n = 5 if th else 3
    out.append(GridFn('converged gain', [(nx, nz, p) for nx, nz in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (2, 3))
                                         for p in itertools.product(range(3), repeat=n)], converge))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for xf in ('col', '1d'):
            out.append(Steady('%s-%s' % (t, xf), s, [P_, ('sp', None, None), ('sp', 0, None), U(0, xf), ('su', 1, xf), ('c', 2, xf, None, None), ('set', 'M', .3), ('cn',)], 4 if th else 3, xf, ctl=True))
            out.append(SteadyProc('proc-%s-%s' % (t, xf), s, [('sp', None, None), ('sp', 0, 0), ('su', 0, xf), ('su', 1, 'list'), ('sn',)], 4 if th else 3, xf))
    return lengthen(out, 1000 if th else 300)
