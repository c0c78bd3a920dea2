import itertools
from mc.engine import lengthen
import numpy as np
from mc.bank import MMAE
from mc.refs import Sys
from props.p15 import BASE, out_z

ID = 'P16'
LEVEL = 'model_checking'
BOUND = ('every sequence of predict (with/without control), update (4-5 measurements incl. outliers, with noise and measurement-matrix overrides) and missing measurement up to depth 4-5 (quick) / 7 (thorough), periodic histories up to '
         '40 operations; banks of 1-4 filters differing in transition, noises and measurement matrix, all orders, several priors; column and 1-D states, dim_x 1-3, dim_z 1-2')
BOUND += '; larger problems (dim_x x dim_z 6x4, 4x5, and up to 9 models) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['histories in which a model probability falls below 1e-200 are not continued']
PR = {1: [[1.]], 2: [[.5, .5], [.9, .1], [1e-4, 1 - 1e-4]], 3: [[.2, .5, .3]], 4: [[.4, .3, .2, .1]]}


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2)]):
        s = out_z(Sys(nx, nz, nu=1 + i % 2, var=12))
        s.z[5] = s.z[5] * .2
        for xf in ('col', '1d'):
            f = 'col' if xf == 'col' else '1d'
            for n in (1, 2, 3, 4):
                perms = list(itertools.permutations(range(n)))[:6]
                for q, (p, pm) in enumerate(itertools.product(PR[n], perms)):
                    if not th and n > 1 and q % (4 if n == 2 else 6) != i % (4 if n == 2 else 6):
                        continue
                    modes = [BASE[k] for k in pm]
                    ops = [('p', None), ('u', 0, f, None, None), ('u', 1, 'list', None, None), ('u', 5, f, None, None), ('n',)]
                    m = MMAE('n%d-%dx%d-%s-%d' % (n, nx, nz, xf, q), s, modes, p, None, ops, (7 if th else 5) - (n > 2 or q > 1), xform=xf, lasso=(2, 40) if q < 2 else None)
                    out.append(m)
            out.append(MMAE('same-%dx%d-%s' % (nx, nz, xf), s, [BASE[0]] * 3, [.2, .3, .5], None,
                            [('p', None), ('u', 0, f, None, None), ('u', 6, f, None, None), ('n',)], 6 if th else 4, xform=xf))
            out.append(MMAE('ctl-%dx%d-%s' % (nx, nz, xf), s, BASE[:2], [.6, .4], None,
                            [('p', None), ('p', 0), ('p', 1), ('u', 0, f, None, None), ('u', 6, f, None, None), ('q',)], 5 if th else 3 + (nx == 2), xform=xf, ctl=True))
            m = MMAE('ovr-%dx%d-%s' % (nx, nz, xf), s, BASE[:3], [.6, .3, .1], None,
                     [('p', None), ('u', 0, f, 1, None), ('u', 1, f, 's', None), ('u', 2, f, None, 2), ('u', 3, f, 2, 3), ('u', 0, f, None, None)],
                     5 if th else 3 + (nx == 2), xform=xf)
            m.bankH = 1
            out.append(m)
    # larger problems, many models
    for nx, nz, n in ((6, 4, 2), (4, 5, 3), (2, 1, 6), (2, 2, 9)):
        s = out_z(Sys(nx, nz, var=12))
        for xf in ('col', '1d'):
            p = np.array([1. + k % 3 for k in range(n)])
            out.append(MMAE('big%dx%d-n%d-%s' % (nx, nz, n, xf), s, [BASE[k % 4] for k in range(n)], list(p / p.sum()), None,
                            [('p', None), ('u', 0, xf, None, None), ('u', 1, 'list', None, None), ('n',)], 4 if th else 3, xform=xf, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
