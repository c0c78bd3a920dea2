from mc.lin import KF, Proc, ProcScalar, P_, U, Pr, N_, assigns
from mc.engine import lengthen
from mc.refs import Sys

ID = 'P01'
LEVEL = 'model_checking'
BOUND = ('every operation sequence of the per-configuration alphabet (5-9 operations) up to depth 3-5 (quick) / 4-7 '
         '(thorough), plus every periodic history w^k with |w|<=2..3 up to 40-60 operations; dim_x 1-4, dim_z 1-3, '
         'dim_u 1-2, column and 1-D states, measurement magnitudes 1e-5..1e5')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement is decided with relative tolerance 1e-7 against an independent float64 reference',
               'values outside the enumerated numeric palette are not explored']


def models(tier):
    th = tier == 'thorough'
    out = []
    d = 6 if th else 5
    shapes = [(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1), (2, 3), (4, 2)]
    for i, (nx, nz) in enumerate(shapes):
        for xf in ('col', '1d'):
            s = Sys(nx, nz, nu=1 + i % 2)
            f1 = 'col' if xf == 'col' else '1d'
            nm = '%dx%d-%s' % (nx, nz, xf)
            core = [P_, U(0, f1), U(1, 'list'), N_, ('set', 'P', 1)]
            ctl = [P_, Pr(u=0), Pr(u=1, B=1), U(0, '1d'), U(2, 'row')]
            ovr = [P_, Pr(F=1), Pr(Q=1), Pr(Q='s'), U(0, f1, R=1), U(1, f1, R='s'), U(2, f1, H=1), U(3, f1)]
            st = [P_, U(0, f1), ('set', 'F', 1), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'H', 1), ('set', 'x', 1),
                  ('set', 'alpha', 1.1)]
            # interleavings of predict / update / missing / reassignments
            out.append(KF('core-' + nm, s, core, d, xf, lasso=(3 if th else 2, 60 if th else 40)))
            out.append(KF('ctl-' + nm, s, ctl, d, xf, ctl=True))
            out.append(KF('noB-' + nm, s, [P_, Pr(u=0), U(0, '1d'), Pr(u=1, B=1)], 3, xf, ctl=False))
            out.append(KF('ovr-' + nm, s, ovr, d - 2 + (nx == 2), xf, alpha=1.02))
            out.append(KF('allovr-' + nm, s, [P_, Pr(u=1, B=1, F=1, Q=1), Pr(u=0, B=2, F=2, Q='s'), U(0, f1, R=1, H=1),
                                              U(1, f1, R='s', H=2), U(2, f1), ('set', 'B', 3)], d - 2, xf, ctl=True))
            out.append(KF('set-' + nm, s, st, d - 2 + (nx == 2), xf))
            forms = ['col', '1d', 'row', 'list', 'listcol', 'icol', 'i1d']
            if nz == 1:
                forms += ['scalar', '0d', 'iscalar']
            out.append(KF('form-' + nm, s, [P_] + [U(j % 4, f) for j, f in enumerate(forms)] +
                       [U(j % 4, f, R=1, H=1) for j, f in enumerate(forms)], 3 if th else 2, xf))
            out.append(KF('int-' + nm, s, [P_, U(0, f1), U(1, 'i1d')], 4, xf, intx=True))
            out.append(KF('zerox-' + nm, s, [P_, U(0, f1), N_], 4, xf, zero_x=True))
            out.append(KF('zero-' + nm, s, [P_, Pr(Q='z'), U(0, f1), U(1, f1, R='z'), Pr(u=2, B=1)], d - 1, xf, ctl=True))
            out.append(Proc('proc-zero-' + nm, s, [P_, Pr(Q='z'), U(0, f1), U(1, f1, R='z')], d - 1, xf))
            out.append(KF('exact-' + nm, s, [P_, U('x', f1), U('x', f1, R=1), U(1, f1, H=1), U('x', f1, H=2)], d - 1, xf))
            out.append(Proc('proc-exact-' + nm, s, [P_, U('x', f1), U(1, f1, H=1), U('x', f1, R=1, H=2)], d - 1, xf))
            if i < 3:
                for a in 'xPFQRH':
                    out.append(KF('assign-%s-%s' % (a, nm), s, [P_, U(0, f1)] + assigns(a), d - 1, xf))
                out.append(KF('assign-B-' + nm, s, [Pr(u=0), U(0, f1)] + assigns('B'), d - 1, xf, ctl=True))
            # procedural functions
            out.append(Proc('proc-' + nm, s, [P_, Pr(u=0, B=1), U(0, f1), U(1, 'list', R=1, H=1), N_,
                                              Pr(F=1, Q=1)], d - 1, xf, ctl=True, lasso=(1, 40)))
        for sc in (1e-5, 1e5):
            out.append(KF('scale%g-%dx%d' % (sc, nx, nz), Sys(nx, nz, var=3, scale=sc),
                          [P_, U(0), U(1), N_, Pr(Q='s'), U(2, 'col', R='s')], d - 1, 'col', lasso=(1, 60)))
            p = Proc('proc-scale%g-%dx%d' % (sc, nx, nz), Sys(nx, nz, var=3, scale=sc),
                     [P_, U(0), U(1), N_], 4, 'col', lasso=(1, 60), keys=('x!', 'P!'))
            p.return_all = False
            out.append(p)
    out.append(ProcScalar('proc-float', Sys(1, 1), [P_, Pr(u=0), Pr(u=1, B=1, F=1, Q=1), Pr(Q=2), U(0, 'scalar'),
                                                    U(1, 'scalar', R=1, H=1), U(2, 'iscalar', H=2), N_], d - 1,
                          lasso=(1, 60)))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for xf in ('col', '1d'):
            out.append(KF('core-%s-%s' % (t, xf), s, [P_, U(0, xf), Pr(u=1, B=1, F=1, Q=1), U(1, xf, R=1, H=1), Pr(Q='s'), U(2, 'list', R='s'), N_, ('set', 'alpha', 1.1)], 4 if th else 3, xf, ctl=True, lasso=(2, 12)))
            out.append(Proc('proc-%s-%s' % (t, xf), s, [P_, Pr(u=0, B=1), U(0, xf), U(1, 'list', R=1, H=1), N_, Pr(F=1, Q=1)], 4 if th else 3, xf, ctl=True, lasso=(1, 20)))
    return lengthen(out, 1000 if th else 300)
