import itertools
from mc.engine import lengthen
import numpy as np
from mc.enkf import EN
from mc.sp import Problem, NL
from mc.lin import assigns
from mc.refs import Sys

ID = 'P20'
LEVEL = 'model_checking'
BOUND = ('every operation sequence up to depth 4-5 (quick) / 6-7 (thorough) where every random draw is chosen by the explorer: complete enumeration of the draws over {-1.2, 0.4, 1.9}^N for 2-3 member ensembles of scalar '
         'states (all 9 / 27 patterns per operation), and palettes of 4-6 distinct generic draw patterns for ensembles of 2-8 members with dim_x 1-4, dim_z 1-3; noise overrides, reassignment, re-initialization, missing '
         'measurements; periodic histories up to 40 operations')
BOUND += '; larger problems (dim_x x dim_z 6x4, 8x5, 5x7 and ensembles of up to 60) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['draws are made with numpy.random.multivariate_normal (or standard normals), whose answers are chosen by the explorer', 'numeric agreement within relative tolerance 1e-7']


def pal(vals):
    return [(lambda i, j, v=v: v[i % len(v)]) for v in vals]


def gen(k):
    r = np.random.RandomState(100 + k)
    M = np.round(r.normal(0, 1, (16, 6)), 2)
    return lambda i, j: M[i % 16, j % 6]


def models(tier):
    th = tier == 'thorough'
    out = []
    V = (-1.2, .4, 1.9)
    for N in (2, 3):
        P = pal(list(itertools.product(V, repeat=N)))
        ok = [i for i, v in enumerate(itertools.product(V, repeat=N)) if len(set(v)) > 1]
        for cls in (Problem, NL):
            p = cls(Sys(1, 1, var=3))
            n = len(P)
            ops = [('p', i) for i in range(n)] + [('u', 0, None, i) for i in range(n)]
            out.append(EN('all-%d-%s' % (N, cls.__name__), p, N, P, ops, 3 if N == 2 or th else 2, init_pat=ok[1]))
    G = [gen(k) for k in range(6)]
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (1, 2)]):
        for cls in (Problem, NL):
            p = cls(Sys(nx, nz, var=9))
            for N in (2, 3, 5, 8):
                nm = '%s-%dx%d-N%d' % (cls.__name__, nx, nz, N)
                out.append(EN('gen-' + nm, p, N, G, [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, None, 3), ('n',)], 6 if th else 4, lasso=(2, 40)))
                if N == 3:
                    for a in 'QR':
                        out.append(EN('assign-%s-%s' % (a, nm), p, N, G, [('p', 0), ('u', 0, None, 2)] + assigns(a), 4 if th else 3))
                if N in (5, 8):
                    out.append(EN('zero-' + nm, p, N, G, [('p', 0), ('u', 0, 'z', 2), ('u', 1, None, 3), ('set', 'Q', 0., 'mul'), ('set', 'Q', 1), ('set', 'R', 1)], 5 if th else 4))
                if N in (3, 8):
                    out.append(EN('ovr-' + nm, p, N, G, [('p', 2), ('u', 0, 1, 0), ('u', 1, 's', 4), ('u', 2, None, 5), ('set', 'R', 1), ('set', 'Q', 1), ('init', 3), ('q',)],
                                  5 if th else 3))
    # larger problems
    for nx, nz in ((6, 4), (8, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for cls in (Problem, NL):
            for N in (3, 14):
                out.append(EN('%s-%s-N%d' % (t, cls.__name__, N), cls(s), N, G, [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('u', 2, 's', 4), ('n',)], 4 if th else 3, lasso=(2, 8)))
    p = NL(Sys(2, 1, var=9))
    for N in (14, 60):
        out.append(EN('many-N%d' % N, p, N, G, [('p', 0), ('p', 1), ('u', 0, None, 2), ('u', 1, 1, 3), ('n',)], 4 if th else 3, lasso=(2, 12)))
    return lengthen(out, 1000 if th else 300)
