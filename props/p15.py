import itertools
from mc.engine import lengthen
import numpy as np
from mc.bank import IMM
from mc.refs import Sys

ID = 'P15'
LEVEL = 'model_checking'
BOUND = ('every sequence of predict (with/without control), update (4-6 measurements incl. outliers of likelihood ratio beyond 1e-300) and missing measurement up to depth 5-6 (quick) / 8 (thorough), periodic histories up to 60 '
         'operations; 2-4 modes differing in transition, noises and measurement matrix, all orders of the modes, identical modes, 4 transition matrices (asymmetric, near-identity, uniform, with zero entries), unnormalized and extreme initial probabilities; '
         'column and 1-D states, dim_x 1-3, dim_z 1-2; linear and unscented mode filters')
BOUND += '; larger problems (dim_x x dim_z 6x4, 4x5, and up to 9 modes) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['an update follows a prediction; the predicted mixture is weighted with the reported mode probabilities', 'every mode stays reachable (positive predicted probability)']

#        F  Q  qf  R  H  x  P
BASE = [(0, 0, 1., 0, 0, 0, 0), (1, 1, 3., 0, 0, 1, 0), (2, 2, .2, 1, 1, 0, 1), (3, 3, 1., 2, 0, 1, 1)]
Ms = {2: [[[.9, .1], [.3, .7]], [[.99, .01], [.02, .98]], [[.5, .5], [.5, .5]], [[1., 0.], [.25, .75]]],
      3: [[[.8, .15, .05], [.1, .6, .3], [.25, .05, .7]], [[.98, .01, .01], [.0, .9, .1], [.02, .02, .96]]],
      4: [[[.7, .1, .1, .1], [.2, .5, .2, .1], [.05, .15, .6, .2], [.3, .1, .2, .4]]]}
MU = {2: [[.7, .3], [3., 1.], [1e-6, 1.]], 3: [[.5, .3, .2], [1, 1, 2]], 4: [[.4, .3, .2, .1]]}


def out_z(s):
    s.z[5] = s.z[5] * 60. + 80.            # outliers
    s.z[6] = s.z[6] * 8. - 9.
    return s


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2)]):
        s = out_z(Sys(nx, nz, var=11))
        for xf in ('col', '1d'):
            f = 'col' if xf == 'col' else '1d'
            for n in (2, 3, 4):
                perms = list(itertools.permutations(range(n))) if n < 4 else [(0, 1, 2, 3), (3, 1, 0, 2)]
                for q, (M, mu, pm) in enumerate(itertools.product(Ms[n], MU[n], perms)):
                    if not th and q % (2 if n == 2 else 4) != (i % 2):
                        continue
                    modes = [BASE[k] for k in pm]
                    ops = [('p', None), ('u', 0, f, None, None), ('u', 1, 'list', None, None), ('u', 5, f, None, None), ('n',)]
                    out.append(IMM('n%d-%dx%d-%s-%d' % (n, nx, nz, xf, q), s, modes, mu, np.array(M), ops, (7 if th else 5) - (n > 2 or q > 3), xform=xf,
                                   lasso=(3 if th else 2, 60) if n == 2 else None))
            same = [BASE[0]] * 3
            out.append(IMM('same-%dx%d-%s' % (nx, nz, xf), s, same, [.2, .3, .5], np.array(Ms[3][0]),
                           [('p', None), ('u', 0, f, None, None), ('u', 6, f, None, None), ('n',)], 6 if th else 4, xform=xf, lasso=(2, 40)))
            out.append(IMM('ctl-%dx%d-%s' % (nx, nz, xf), s, BASE[:2], [.6, .4], np.array(Ms[2][0]),
                           [('p', None), ('p', 0), ('p', 1), ('u', 0, f, None, None), ('u', 6, f, None, None), ('q',)], 5 if th else 4, xform=xf, ctl=True))
        m = IMM('ukf-%dx%d' % (nx, nz), s, BASE[:3], [.5, .3, .2], np.array(Ms[3][0]),
                [('p', None), ('u', 0, '1d', None, None), ('u', 6, '1d', None, None), ('n',)], 6 if th else 4, kind='ukf', xform='1d')
        m.rtol = 1e-6
        out.append(m)
    # larger problems, many modes
    for nx, nz, n in ((6, 4, 2), (4, 5, 3), (2, 1, 6), (2, 2, 9)):
        s = out_z(Sys(nx, nz, var=11))
        M = np.array([[1. + (3 * i + 5 * j) % 7 + (9 if i == j else 0) for j in range(n)] for i in range(n)])
        M /= M.sum(axis=1, keepdims=True)
        for xf in ('col', '1d'):
            out.append(IMM('big%dx%d-n%d-%s' % (nx, nz, n, xf), s, [BASE[k % 4] for k in range(n)], [1. + k % 3 for k in range(n)], M,
                           [('p', None), ('u', 0, xf, None, None), ('u', 1, 'list', None, None), ('n',)], 4 if th else 3, xform=xf, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
