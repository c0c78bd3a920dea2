import math
from mc.engine import lengthen
import numpy as np
from mc.engine import GridFn, close
from mc.poly import Poly, phi, lyap
from mc.kfs import Fading
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys

ID = 'P24'
LEVEL = 'model_checking'
BOUND = ('fading Kalman filter: every operation sequence of 5-8 operation alphabets up to depth 4 (quick) / 5 (thorough), periodic histories up to 60 operations, dim_x 1-4, dim_z 1-3, '
         'factors 1..1.5; polynomial filter: every history over 3 measurements up to depth 5/7, orders 0-2, all fading factors in a .05-.1 grid for its constants')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7']


def consts(case):
    from filterpy.memory import FadingMemoryFilter
    order, beta, dt = case
    n = order + 1
    f = FadingMemoryFilter(0., dt, order, beta)
    # the filter is linear: read its gain off one update, then use the steady-state equations
    f.update(1.)
    K = np.array(f.x, dtype=float).reshape(-1, 1)
    F = phi(n, dt)
    I = np.eye(n)
    H = np.eye(1, n)
    M = (I - K.dot(H)).dot(F)
    S = lyap(M, K.dot(K.T))
    if not close(f.P, np.diag(S), 1e-6, 1e-12):
        return ('P%r' % (case,), np.diag(S), f.P), None
    # true polynomial a_{n} t^{n} (n = order + 1), i.e. derivative number n is n! a_n
    dn = math.factorial(n)
    w = np.array([dn * dt ** (n - j) / math.factorial(n - j) for j in range(n)]).reshape(-1, 1)
    # e+ = (I - K H)(F e+ + w)
    e = np.linalg.solve(I - M, (I - K.dot(H)).dot(w)).ravel()
    if not close(f.e, e, 1e-6, 1e-12):
        return ('e%r' % (case,), e, f.e), None
    return None, list(f.P) + list(f.e)


def models(tier):
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]):
        s = Sys(nx, nz, nu=1 + i % 2)
        for al in (1., 1.02, 1.5):
            nm = '%dx%d-a%g' % (nx, nz, al)
            out.append(Fading('core-' + nm, s, [P_, U(0), U(1, R=1), U(2, R='s'), N_], d, alpha=al, lasso=(2, 40) if al != 1.5 else None))
        out.append(Fading('ctl-%dx%d' % (nx, nz), s, [P_, Pr(u=0), Pr(u=1), U(0), ('q', 'g'), ('q', 'repr'), ('set', 'B', 1)], d, alpha=1.1, ctl=True))
        out.append(Fading('set-%dx%d' % (nx, nz), s, [P_, U(0), ('set', 'F', 1), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'H', 1),
                                                      ('set', 'x', 1), ('set', 'P', 1)], d - 1, alpha=1.05))
        nm = '%dx%d' % (nx, nz)
        out.append(Fading('zero-' + nm, s, [P_, U(0), U(1, R='z')], d, alpha=1.05))
        out.append(Fading('exact-' + nm, s, [P_, U('x'), U('x', R=1), U(1)], d, alpha=1.05))
        if i < 4:
            for a in 'xPFQRH':
                out.append(Fading('assign-%s-%s' % (a, nm), s, [P_, U(0)] + assigns(a), d, alpha=1.05))
    for order in (0, 1, 2):
        for dt in (1., .3, 2.):
            for b in (.3, .8):
                for nm, x0, ix in (('f', [1.3, -.7, .4], False), ('z', [2., 0., 0.], False), ('i', [2, 3, 1], True)):
                    out.append(Poly('mem%d-%s-dt%g-b%g' % (order, nm, dt, b), 'mem', order, dt, x0[:order + 1], [b],
                                    [('u', 0, ()), ('u', 1, ()), ('u', 2, ()), ('q',)], 7 if th else 5, [1.7, -2.3, 5.], lasso=(2, 60), intx=ix))
    bs = [round(.05 * i, 2) for i in range(1, 19)]
    out.append(GridFn('constants', [(o, b, dt) for o in (0, 1, 2) for b in bs for dt in (1., .2, 2., 5.)], consts))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        out.append(Fading(t, s, [P_, Pr(u=0), U(0), U(1, R=1), U(2, R='s'), N_], 4 if th else 3, alpha=1.05, ctl=True, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
