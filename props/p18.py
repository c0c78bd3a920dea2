import numpy as np
from mc.zoo import with_cycles
from mc.sp import SP, NL, Angle, AngleX, AngleZ, Res, Pp, Uu, symroot
from mc.lin import assigns
from mc.refs import Sys

ID = 'P18'
LEVEL = 'model_checking'
BOUND = ('every operation sequence up to depth 4-5 (quick) / 6 (thorough) over predict (own/changed time step, extra arguments, process-function override, explicit transform), update (noise and '
         'measurement-function overrides, extra arguments, explicit transform), missing measurement and reassignment; periodic histories up to 30 operations; three prediction-update cycles of at most two kinds; dim_x 1-4, dim_z 1-3; 8 sigma-point '
         'families/parameter sets; 6 nonlinear problems incl. circular state and measurement components with custom mean/residual/addition functions, custom square root')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
ASSUMPTIONS = ['every update uses the sigma points of a preceding predict (as documented)', 'numeric agreement within relative tolerance 1e-6']

FAMS = [('merwe', .3, 2., .1), ('merwe', 1., 2., 0.), ('merwe', .7, 0., 1.), ('julier', 0.5), ('julier', 2.), ('simplex',), ('merwe', .9, 2., -.2)]
PROBS = [NL, Angle, AngleX, AngleZ, Res]


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (1, 2)]):
        for j, P in enumerate(PROBS):
            for q, fam in enumerate(FAMS):
                if not th and (i + j + q) % 3 and nx != 2:
                    continue
                p = P(Sys(nx, nz, var=7))
                nm = '%dx%d-%s-%s' % (nx, nz, P.__name__, '_'.join(str(v) for v in fam))
                sub = None
                if P in (Angle, AngleX) and q % 2:
                    sub = None
                root = symroot if q % 3 == 1 else None
                ops = [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), Uu(2, 's', .2), ('n',), Pp(None, None, 'fx'), Uu(3, None, None, 'hx')]
                out.append(with_cycles(SP('core-' + nm, p, fam, ops, 5 if th else 3, lasso=(2, 30), root=root), None if th else 400 if nx == 2 else 60))
                out.append(SP('zero-' + nm, p, fam, [Pp(), Pp(0.), Pp(.2, 0.), Uu(0), Uu(1, 'z'), Uu(2, 's', 0.)], 4 if th else 3, root=root))
                if root is not None:
                    out.append(SP('sqrtfn-' + nm, p, fam, ops, 4 if th else 3, root=root, via='ukf'))
                if i < 3 and q in (0, 3, 5):
                    for a in 'xPQR':
                        out.append(SP('assign-%s-%s' % (a, nm), p, fam, [Pp(), Uu(0)] + assigns(a), 4 if th else 3, root=root))
                if (i + j + q) % 3 == 0 or th:
                    ops = [Pp(), Uu(0), Pp(None, None, 'UT'), Uu(1, 1, None, 'UT'), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'P', 1), ('set', 'x', 1)]
                    out.append(SP('set-' + nm, p, fam, ops, 4 if th else 3, root=root))
                    out.append(SP('deep-' + nm, p, fam, [Pp(), Uu(0), Uu(1, 1, .3), ('n',)], 7 if th else 5, root=root))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for P in PROBS:
            for fam in FAMS[::3] + FAMS[5:6]:
                out.append(SP('%s-%s-%s' % (t, P.__name__, '_'.join(str(v) for v in fam)), P(s), fam, [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), Uu(2, 's', .2), ('n',)], 4 if th else 3, lasso=(2, 8)))
    return out
