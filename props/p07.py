from mc.kfs import SqrtKF
from mc.engine import lengthen
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys

ID = 'P07'
LEVEL = 'model_checking'
BOUND = ('every operation sequence of 5-8 operation alphabets up to depth 4-5 (quick) / 5-6 (thorough) and periodic histories '
         'up to 60 operations; dim_x 1-4, dim_z 1-3, dim_u 1-2, scales 1e-5..1e5')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7; process noise, measurement noise and covariance are positive definite',
               'a per-call noise override is the square root of the noise']


def models(tier):
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]):
        s = Sys(nx, nz, nu=1 + i % 2)
        nm = '%dx%d' % (nx, nz)
        out.append(SqrtKF('core-' + nm, s, [P_, U(0), U(1), N_, ('set', 'P', 1), ('q', 'r')], d, lasso=(2, 60 if th else 30)))
        out.append(SqrtKF('ctl-' + nm, s, [P_, Pr(u=0), Pr(u=1), U(0), U(2), N_], d, ctl=True))
        out.append(SqrtKF('ovr-' + nm, s, [P_, U(0), U(1, R=1), U(2, R='s'), U(3, R=2), N_], d))
        out.append(SqrtKF('set-' + nm, s, [P_, U(0), ('set', 'F', 1), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'H', 1),
                                           ('set', 'x', 1), ('set', 'P', 1)], d if nx == 2 or th else d - 1))
        out.append(SqrtKF('setB-' + nm, s, [P_, Pr(u=0), U(0), ('set', 'B', 1)], d, ctl=True))
        out.append(SqrtKF('zero-' + nm, s, [P_, U(0), U(1, R='z')], d))
        out.append(SqrtKF('exact-' + nm, s, [P_, U('x'), U('x', R=1), U(1)], d))
        if i < 4:
            for a in 'xPFQRH':
                out.append(SqrtKF('assign-%s-%s' % (a, nm), s, [P_, U(0)] + assigns(a, a not in 'PQR'), d))
        for sc in (1e-5, 1e5):
            out.append(SqrtKF('scale%g-%s' % (sc, nm), Sys(nx, nz, var=3, scale=sc), [P_, U(0), U(1), N_, U(2, R='s')],
                              d, lasso=(1, 60)))
    out.append(SqrtKF('scalar-z', Sys(2, 1), [P_, U(0, 'scalar'), U(1, 'scalar', R='s')], d + 1))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        out.append(SqrtKF(t, s, [P_, Pr(u=0), U(0), U(1, R=1), U(2, R='s'), N_, ('set', 'P', 1)], 4 if th else 3, ctl=True, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
