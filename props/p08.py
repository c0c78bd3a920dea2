import numpy as np
from mc.engine import lengthen
from mc.kfs import Info, Info0
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys

ID = 'P08'
LEVEL = 'model_checking'
BOUND = ('every operation sequence of 5-8 operation alphabets up to depth 4-5 (quick) / 5-6 (thorough) and periodic histories '
         'up to 60 operations; dim_x 1-4, dim_z 1-3, dim_u 1-2, scales 1e-3..1e3')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7', 'the state is compared only where the information determines it (information matrix numerically invertible)']


def models(tier):
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]):
        s = Sys(nx, nz, nu=1 + i % 2)
        nm = '%dx%d' % (nx, nz)
        out.append(Info('core-' + nm, s, [P_, U(0), U(1), N_, ('set', 'P', 1), ('q', 'r')], d, lasso=(2, 60 if th else 30)))
        out.append(Info('ctl-' + nm, s, [P_, Pr(u=0), Pr(u=1), U(0), U(2), N_], d, ctl=True))
        out.append(Info('ovr-' + nm, s, [P_, U(0), U(1, R=1), U(2, R='s'), U(3, R=2), N_], d))
        out.append(Info('set-' + nm, s, [P_, U(0), ('set', 'F', 1), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'H', 1),
                                         ('set', 'x', 1), ('set', 'P', 1)], d if nx == 2 or th else d - 1))
        out.append(Info('setB-' + nm, s, [P_, Pr(u=0), U(0), ('set', 'B', 1)], d, ctl=True))
        m = Info('noll-' + nm, s, [P_, U(0), U(1, R=1), N_], d)
        m.compute = False
        out.append(m)
        m = Info('zero-' + nm, s, [P_, U(0), U(1, R='z'), N_], d)
        m.compute = False
        out.append(m)
        out.append(Info('exact-' + nm, s, [P_, U('x'), U('x', R=1), U(1)], d))
        if i < 4:
            for a in 'xPFQRH':
                out.append(Info('assign-%s-%s' % (a, nm), s, [P_, U(0)] + assigns(a), d))
        for sc in (1e-3, 1e3):
            out.append(Info('scale%g-%s' % (sc, nm), Sys(nx, nz, var=3, scale=sc), [P_, U(0), U(1), N_, U(2, R='s')],
                            d, lasso=(2, 40)))
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (2, 3)]):
        s = Sys(nx, nz, nu=1 + i % 2, var=4)
        one = np.zeros((nx, nx))
        one[0, 0] = 2.
        for z, Y0 in (('none', np.zeros((nx, nx))), ('part', one), ('ones', np.ones((nx, nx)) * .5)):
            nm = '%s-%dx%d' % (z, nx, nz)
            out.append(Info0('noinfo-' + nm, s, Y0, [('p',), ('u', 0, None), ('u', 1, 1), ('n',), ('u', 2, None)], 6 if th else 5, lasso=(2, 30)))
            out.append(Info0('noinfo1d-' + nm, s, Y0, [('p',), ('u', 0, None), ('u', 1, 1)], 6 if th else 5, xform='1d'))
            out.append(Info0('noinfoctl-' + nm, s, Y0, [('p',), ('p', 0), ('u', 0, None), ('u', 1, None)], 6 if th else 5, ctl=True))
            out.append(Info0('noinfoset-' + nm, s, Y0, [('p',), ('u', 0, None), ('u', 1, None), ('set', 'F', 1), ('set', 'H', 1), ('set', 'Q', 1), ('set', 'R', 1)], 5 if th else 4))
    m = Info('scalar-z', Sys(2, 1), [P_, U(0, 'scalar'), U(1, 'scalar', R='s')], d + 1)
    out.append(m)
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        out.append(Info(t, s, [P_, Pr(u=0), U(0), U(1, R=1), U(2, R='s'), N_, ('set', 'P', 1)], 4 if th else 3, ctl=True, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
