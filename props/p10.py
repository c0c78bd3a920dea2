from mc.sp import SP, Problem, Pp, Uu
from mc.engine import lengthen
from mc.lin import assigns
from mc.refs import Sys, far

ID = 'P10'
LEVEL = 'model_checking'
BOUND = ('every operation sequence up to depth 4-5 (quick) / 6-7 (thorough) over predict (own/changed time step, extra arguments, process-function override), '
         'update (noise and measurement-function overrides, extra arguments, measurement forms), missing measurement and reassignment; every periodic history of period 2-3 up to 40 operations; '
         'dim_x 1-4, dim_z 1-3, states near and (1e6 standard deviations) far from the origin, 11 sigma-point families/parameter sets and the cubature rule')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['every update uses the sigma points of a preceding predict (as documented)', 'numeric agreement within relative tolerance 1e-6']

FAMS = [('merwe', .1, 2., 1.), ('merwe', 1., 2., 0.), ('merwe', .5, 0., 2.), ('merwe', 1e-2, 2., 0.), ('merwe', 1.3, 1., -.5),
        ('julier', 0.), ('julier', 1.), ('julier', -.5), ('julier', 2.5), ('simplex',), ('ckf',)]


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (1, 2)]):
        p = Problem(Sys(nx, nz, var=5))
        for j, fam in enumerate(FAMS):
            ck = fam[0] == 'ckf'
            deep = (i + j) % 3 == 0 or ck
            nm = '%dx%d-%s' % (nx, nz, '_'.join(str(q) for q in fam))
            ops = [Pp(), Pp(.2, .7), Uu(0), Uu(1, 1), Uu(2, 's', .3), ('n',)]
            kw = dict(atol=1e-6 if fam[1:2] == (1e-2,) else 1e-9)
            m = SP('core-' + nm, p, fam, ops, (6 if th else 4) + deep, lasso=(3 if th else 2, 40), **kw)
            if fam[1:2] == (1e-2,):
                m.rtol = 1e-5
            out.append(m)
            ops = [Pp(), Uu(0), Uu(3, 1), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'x', 1), ('set', 'P', 1)]
            if not ck:
                ops += [Pp(None, None, 'fx'), Uu(1, None, .4, 'hx'), Pp(None, None, 'UT'), Uu(2, None, None, 'UT')]
            m = SP('set-' + nm, p, fam, ops, (5 if th else 4) if deep else (4 if th else 3), **kw)
            if fam[1:2] == (1e-2,):
                m.rtol = 1e-5
            out.append(m)
            out.append(SP('zero-' + nm, p, fam, [Pp(), Pp(0.), Pp(.2, 0.), Uu(0), Uu(1, 'z'), Uu(2, 's', 0.)], 4 if th else 3, **kw))
            if i < 3 and j in (1, 6, 9, 10):
                for a in 'xPQR':
                    out.append(SP('assign-%s-%s' % (a, nm), p, fam, [Pp(), Uu(0)] + assigns(a), 4 if th else 3))
            if ck:
                fs = ['1d', 'col', 'list'] + (['scalar'] if nz == 1 else [])
                out.append(SP('form-' + nm, p, fam, [Pp(), Pp(.3, -.4)] + [Uu(k, None, None, f) for k, f in enumerate(fs)], 4))
                out.append(SP('xcol-' + nm, p, fam, ops, 4, xcol=True, zform='col'))
            elif deep:
                fs = ['1d'] + (['scalar'] if nz == 1 else ['list'])
                out.append(SP('form-' + nm, p, fam, [Pp(), Pp(.3, .4)] + [Uu(k, None, None, f) for k, f in enumerate(fs)], 4, **kw))
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3)]):
        p = Problem(far(Sys(nx, nz, var=6)))
        for fam in FAMS[:3] + FAMS[5:7] + FAMS[9:]:
            nm = 'far-%dx%d-%s' % (nx, nz, '_'.join(str(q) for q in fam))
            out.append(SP(nm, p, fam, [Pp(), Pp(.2, .7), Uu(0), Uu(1, 1), ('n',)], 5 if th else 4, lasso=(2, 12)))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        p = Problem(s)
        for fam in FAMS:
            m = SP('%s-%s' % (t, '_'.join(str(q) for q in fam)), p, fam, [Pp(), Pp(.2, .7), Uu(0), Uu(1, 1), Uu(2, 's', .3), ('n',)], 4 if th else 3, lasso=(2, 8), atol=1e-6 if fam[1:2] == (1e-2,) else 1e-9)
            if fam[1:2] == (1e-2,):
                m.rtol = 1e-5
            out.append(m)
    return lengthen(out, 1000 if th else 300)
