from mc.sp import DW, SP, NL, Problem, Pp, Uu, Angle, AngleX, AngleZ, Res
from mc.engine import lengthen
from mc.lin import assigns
from mc.refs import Sys, far

ID = 'P19'
LEVEL = 'model_checking'
BOUND = ('every operation sequence up to depth 4-6 (quick) / 7 (thorough) over predict (own/changed time step, extra arguments in tuple and bare form), update (noise override, extra arguments, '
         'measurement forms), missing measurement and reassignment; periodic histories up to 40 operations; dim_x 1-5, dim_z 1-3, scales 1e-2..1e2, states near and far (1e7) from the origin; custom mean and residual functions (angles, scaled residuals)')
BOUND += '; larger problems (dim_x x dim_z 6x4, 9x5, 5x7) at smaller depth'
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['every update uses the cubature points of a preceding predict (as documented)', 'numeric agreement within relative tolerance 1e-6']


class NL2(NL):
    """other nonlinearities: products of components"""

    def f(self, x, dt, w=DW):
        y = self.Fm(dt).dot(x)
        return y + dt * .2 * x * x[::-1] + w * self.b * (1 + x[0])

    def h(self, x, w=DW):
        y = self.H.dot(x)
        return y * y * .3 + y + w * self.d * (1 + .1 * x[-1])


def models(tier):
    th = tier == 'thorough'
    out = []
    for i, (nx, nz) in enumerate([(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (1, 2), (5, 1)]):
        for P in (NL, NL2):
            p = P(Sys(nx, nz, var=8))
            nm = '%s-%dx%d' % (P.__name__, nx, nz)
            fam = ('ckf',)
            out.append(SP('core-' + nm, p, fam, [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), Uu(2, 's', .2), ('n',)], 6 if th else 5, lasso=(3 if th else 2, 40)))
            out.append(SP('args-' + nm, p, fam, [Pp(None, -.2), Pp(.7, .2), Uu(0, None, -.3), Uu(1, 1, .4), Pp()], 6 if th else 4))
            out.append(SP('set-' + nm, p, fam, [Pp(), Uu(0), ('set', 'Q', 1), ('set', 'R', 1), ('set', 'P', 1), ('set', 'x', 1), ('q', 'repr')],
                          6 if th else 4))
            out.append(SP('zero-' + nm, p, fam, [Pp(), Pp(0.), Pp(.2, 0.), Uu(0), Uu(1, 'z'), Uu(2, 's', 0.)], 5 if th else 4))
            for a in 'xPQR':
                out.append(SP('assign-%s-%s' % (a, nm), p, fam, [Pp(), Uu(0)] + assigns(a), 4))
            fs = ['1d', 'col', 'list'] + (['scalar'] if nz == 1 else [])
            out.append(SP('form-' + nm, p, fam, [Pp(), Pp(.3, -.4)] + [Uu(k, None, None, f) for k, f in enumerate(fs)], 5 if th else 4))
            out.append(SP('xcol-' + nm, p, fam, [Pp(), Uu(0), Uu(1, 1), ('n',)], 5, xcol=True, zform='col'))
            out.append(SP('deep-' + nm, p, fam, [Pp(), Uu(0), Uu(1, 1)], 9 if th else 7))
        for P in (Angle, AngleX, AngleZ, Res):
            s = Sys(nx, nz, var=8)
            p = P(s)
            nm = '%s-%dx%d' % (P.__name__, nx, nz)
            out.append(SP('fns-' + nm, p, ('ckf',), [Pp(), Pp(.7), Pp(None, .2), Uu(0), Uu(1, 1), Uu(2, 's', .2), Uu(3), ("n",)], 6 if th else 4, lasso=(2, 40)))
            out.append(SP('fnscol-' + nm, p, ('ckf',), [Pp(), Uu(0), Uu(1), ('n',)], 6 if th else 5, xcol=True, zform='col'))
        p = Problem(far(Sys(nx, nz, var=9), 1e7))
        out.append(SP('far-%dx%d' % (nx, nz), p, ('ckf',), [Pp(), Pp(.2, .7), Uu(0), Uu(1, 1), ('n',)], 6 if th else 5, lasso=(2, 20)))
    # larger problems
    for nx, nz in ((6, 4), (9, 5), (5, 7)):
        s = Sys(nx, nz, nu=3, var=1)
        t = 'big%dx%d' % (nx, nz)
        for P in (NL, Angle, Res):
            out.append(SP('%s-%s' % (t, P.__name__), P(s), ('ckf',), [Pp(), Pp(.2, .3), Uu(0), Uu(1, 1), Uu(2, 's', .2), ('n',)], 4 if th else 3, lasso=(2, 8)))
    return lengthen(out, 1000 if th else 300)
