from mc.kfs import EKFLin
from mc.engine import lengthen
from mc.ekfnl import EKFNon
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys

ID = 'P09'
LEVEL = 'model_checking'
BOUND = ('every operation sequence of 5-9 operation alphabets up to depth 4 (quick) / 5-6 (thorough), linear problems (against the Kalman '
         'reference) and nonlinear ones (range/bearing like functions with arguments, custom residuals, noise overrides, control, combined '
         'predict-update), periodic histories up to 40 operations; dim_x 1-4, dim_z 1-3, column and 1-D states')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7']


def models(tier):
    th = tier == 'thorough'
    d = 5 if th else 4
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]):
        for xf in ('col', '1d'):
            s = Sys(nx, nz, nu=1 + i % 2)
            f1 = xf
            nm = '%dx%d-%s' % (nx, nz, xf)
            out.append(EKFLin('lin-' + nm, s, [P_, U(0, f1), U(1, f1, R=1), U(2, f1, R='s'), N_, U(3, f1, H=1)], d, xf,
                              lasso=(2, 40)))
            out.append(EKFLin('lin-zero-' + nm, s, [P_, U(0, f1), U(1, f1, R='z'), U(2, f1, H=1)], d, xf))
            out.append(EKFLin('lin-exact-' + nm, s, [P_, U('x', f1), U('x', f1, R=1), U(1, f1, H=1), U('x', f1, H=2)], d, xf))
            out.append(EKFLin('lin-ctl-' + nm, s, [P_, Pr(u=0), U(0, f1), ('pu', 1, None), ('pu', 2, 1), ('set', 'F', 1),
                                                   ('set', 'R', 1), ('set', 'Q', 1)], d - 1, xf, ctl=True))
            if i < 3:
                for a in 'xPFQR':
                    out.append(EKFLin('assign-%s-%s' % (a, nm), s, [P_, U(0, f1)] + assigns(a), d, xf))
            core = [P_, ('u', 0, 'plain', None, 0), ('u', 1, 'tuple', 1, 0), ('u', 2, 'diff', 's', 1), N_]
            out.append(EKFNon('nl-' + nm, s, core, d, xf, lasso=(2, 40)))
            out.append(EKFNon('nl-zero-' + nm, s, [P_, ('u', 0, 'zero', None, 0), ('u', 1, 'bzero', 1, 0), ('u', 2, 'plain', None, 0), ('pu', 1, 'bzero', None)], d - 1, xf))
            out.append(EKFNon('nl-exact-' + nm, s, [('u', 'x', 'plain', None, 0), ('u', 'x', 'tuple', 1, 0), ('u', 1, 'diff', None, 0), ('u', 0, 'bare', None, 1), P_], d, xf))
            out.append(EKFNon('nl-args-' + nm, s, [('u', j % 4, v, R, r) for j, (v, R, r) in enumerate(
                [(v, R, r) for v in ('plain', 'tuple', 'bare', 'diff') for R in (None, 1, 's') for r in (0, 1)])] + [P_],
                3 if th else 2, xf))
            out.append(EKFNon('nl-pu-' + nm, s, [('pu', 0, 'plain', None), ('pu', 1, 'tuple', 0), ('pu', 2, 'bare', None),
                                                 ('pu', 3, 'diff', 1), ('pu', None, 'tuple', 0), ('set', 'F', 1), ('set', 'R', 1),
                                                 ('set', 'Q', 1)], d - 1, xf, ctl=True))
        out.append(EKFLin('scale-%dx%d' % (nx, nz), Sys(nx, nz, var=3, scale=1e-4), [P_, U(0), U(1), U(2, R='s')], d, lasso=(1, 60)))
    out.append(EKFLin('scalar-z', Sys(2, 1), [P_, U(0, 'scalar'), U(1, 'scalar', R='s'), U(2, '0d'), N_], d))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for xf in ('col', '1d'):
            out.append(EKFLin('lin-%s-%s' % (t, xf), s, [P_, Pr(u=0), U(0, xf), U(1, xf, R=1), U(2, xf, R='s'), N_, U(3, xf, H=1), ('pu', 1, None)], 4 if th else 3, xf, ctl=True, lasso=(2, 12)))
            out.append(EKFNon('nl-%s-%s' % (t, xf), s, [P_, ('u', 0, 'plain', None, 0), ('u', 1, 'tuple', 1, 0), ('u', 2, 'diff', 's', 1), N_], 4 if th else 3, xf, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
