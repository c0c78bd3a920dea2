from mc.fls import FL
from mc.engine import lengthen
from mc.lin import assigns
from mc.refs import Sys

ID = 'P21'
LEVEL = 'model_checking'
BOUND = ('every measurement sequence over 3 values (with and without control, with reassignments of the model in some configurations) up to length 5-6 (quick) / 8 (thorough), periodic sequences up to 30 measurements, lags 1-5, '
         'dim_x 1-4, dim_z 1-2, column and 1-D states, scalar measurements; batch smoothing is compared with the recursive one after every prefix')
BOUND += '; larger problems (dim_x x dim_z 6x4, 5x3, and lags of 12 and 25) at smaller depth'
BOUND += '; periodic histories of 300 steps for the simplest configuration of every kind'
ASSUMPTIONS = ['lag N >= 1; the smoothing gains are accepted either as the optimal ones or as the formula in the code (its sub-optimality is a known finding)']


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 1)]):
        s = Sys(nx, nz, nu=1 + i % 2, var=13)
        for xf in ('col', '1d'):
            for N in (1, 2, 3, 5):
                nm = '%dx%d-%s-N%d' % (nx, nz, xf, N)
                zs = [('u', j, None) for j in range(3)]
                out.append(FL('z-' + nm, s, N, zs, 7 if th else 5, xf, lasso=(2 if th or N == 2 else 1, 30)))
                out.append(FL('ctl-' + nm, s, N, [('u', 0, 0), ('u', 1, 1), ('u', 2, 0)], 6 if th else 4, xf, ctl=True))
                if N < 4:
                    out.append(FL('mix-' + nm, s, N, [('u', 0, 0), ('u', 1, None), ('q',)], 7 if th else 5, xf, ctl=True))
                    out.append(FL('set-' + nm, s, N, [('u', 0, None), ('u', 1, None), ('set', 'F', 1), ('set', 'R', 1), ('set', 'Q', 1), ('set', 'H', 1)], 5 if th else 3, xf))
                if N == 2:
                    for a in 'FQRH':
                        out.append(FL('assign-%s-%s' % (a, nm), s, N, [('u', 0, None), ('u', 1, None)] + assigns(a), 5 if th else 4, xf))
                if nz == 1:
                    out.append(FL('scalar-' + nm, s, N, zs, 4, xf, zf='scalar'))
    # larger problems, long lags
    for nx, nz, N in ((6, 4, 3), (5, 3, 8), (2, 1, 12), (2, 2, 25)):
        s = Sys(nx, nz, nu=2, var=13)
        for xf in ('col', '1d'):
            out.append(FL('big%dx%d-N%d-%s' % (nx, nz, N, xf), s, N, [('u', 0, None), ('u', 1, None), ('u', 2, 1)], 4 if th else 3, xf, lasso=(2, 70), ctl=True))
    return lengthen(out, 300)


def known():
    m = FL('optimal-2x1-col-N2', Sys(2, 1, nu=2, var=13), 2, [('u', 0, None), ('u', 1, None)], 4)
    m.strict = True
    return {m.name: m}
