import itertools
from mc.engine import lengthen
import math
import numpy as np
from mc.engine import GridFn, close
from mc.poly import Poly, phi, gains, lyap, stable

ID = 'P22'
LEVEL = 'model_checking'
BOUND = ('every update history up to depth 4-5 (quick) / 6 (thorough) over 3 measurements with and without per-call gains, gain and time-step changes, plus periodic '
         'histories up to 60 updates, scalar / vector / integer states, orders 0-2; gain-design and variance formulas on complete grids of gains (step .05-.1), '
         'time steps and n=0..60')
BOUND += '; periodic histories of 300 (thorough: 1000) steps for the simplest configuration of every kind'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7', 'variance formulas are checked for stable gains']


def filt(n, dt, g):
    from filterpy.gh import GHFilter, GHKFilter
    return GHFilter(0., 0., dt, *g) if n == 2 else GHKFilter(0., 0., 0., dt, *g)


def vrf(case):
    n, dt, g = case
    F = phi(n, dt)
    K = gains(n, dt, *g).reshape(-1, 1)
    M = (np.eye(n) - K.dot(np.eye(1, n))).dot(F)
    f = filt(n, dt, g)
    if not stable(M):
        return None, 'unstable'
    S = lyap(M, K.dot(K.T))
    v = f.VRF()
    if not close(np.array(v, float), np.diag(S), 1e-6):
        return ('VRF%r' % (case,), np.diag(S), v), None
    p = f.VRF_prediction()
    w = (F.dot(S).dot(F.T))[0, 0]
    if not close(p, w, 1e-6):
        return ('VRF_prediction%r' % (case,), w, p), None
    fp = list(np.diag(S)) + [w]
    if n == 3:
        # steady-state error of x_prediction for a signal of constant third derivative
        for d3 in (1., -2.5):
            X = np.zeros(3)
            e = None
            # error recursion: signal t^3/6*d3 in exact arithmetic
            # state error e = true - est, true' = F true + w, w = d3*(dt^3/6, dt^2/2, dt)
            wv = d3 * np.array([dt ** 3 / 6, dt ** 2 / 2, dt])
            I = np.eye(3)
            # prediction error e- : e-_{k+1} = F (I - K H) e-_k + w
            ep = np.linalg.solve(I - F.dot(I - K.dot(np.eye(1, 3))), wv)
            b = f.bias_error(d3)
            if not close(abs(b), abs(ep[0]), 1e-6):
                return ('bias_error%r' % (case,), ep[0], b), None
            if not close(b, -ep[0], 1e-6):
                return ('bias_error sign%r' % (case,), -ep[0], b), None
            fp.append(b)
    return None, fp


def design(case):
    from filterpy.gh import optimal_noise_smoothing, least_squares_parameters, critical_damping_parameters
    import filterpy.gh as gh
    kind, a = case
    if kind == 'lsq':
        # the gain for sample number n makes the g-h filter the least-squares line through all samples
        from filterpy.gh import GHFilter
        zs = [3., -1., 4., 1.5, -2., 6., .5] * 9
        dt = .7
        f = GHFilter(0., 0., dt, 0., 0.)
        fp = []
        for n in range(a + 1):
            g, h = least_squares_parameters(n)
            f.update(zs[n], g, h)
            fp += [g, h]
            if n >= 1:
                t = (np.arange(n + 1) - n) * dt
                c = np.polyfit(t, zs[:n + 1], 1)
                if not close([f.x, f.dx], [c[1], c[0]], 1e-7, 1e-9):
                    return ('least_squares_parameters(%d)' % n, [c[1], c[0]], [f.x, f.dx]), None
        return None, fp
    if kind == 'crit':
        th, order = a
        r = critical_damping_parameters(th, order)
        n = order
        F = phi(n, 1.)
        K = gains(n, 1., *r).reshape(-1, 1)
        M = (np.eye(n) - K.dot(np.eye(1, n))).dot(F)
        # all poles at theta: characteristic polynomial (s - theta)^n
        want = np.poly([th] * n)
        got = np.poly(M)
        if not close(got, want, 1e-6, 1e-8):
            return ('critical_damping_parameters%r' % (a,), want, got), None
        return None, r
    if kind == 'crit-default':
        if not close(critical_damping_parameters(a), critical_damping_parameters(a, 2)):
            return ('critical_damping_parameters default order', critical_damping_parameters(a, 2), critical_damping_parameters(a)), None
        return None, a
    if kind == 'crit-bad':
        try:
            r = critical_damping_parameters(*a)
        except ValueError:
            return None, repr(a)
        return ('critical_damping_parameters%r must raise' % (a,), 'ValueError', r), None
    if kind == 'noise':
        g, h, k = optimal_noise_smoothing(a)
        if g != a or h <= 0:
            return ('optimal_noise_smoothing(%r)' % a, a, (g, h, k)), None
        q = 4 * (1 - g) * h * h - (2 * g ** 3 - 4 * g ** 2) * h - 3 * g ** 4
        if abs(q) > 1e-9:
            return ('optimal_noise_smoothing(%r) h' % a, 0., q), None
        if abs(g * k - (h * (2 - g) - g * g)) > 1e-9:
            return ('optimal_noise_smoothing(%r) k' % a, (h * (2 - g) - g * g) / g, k), None
        return None, (h, k)
    if kind == 'bb':
        from filterpy.gh import benedict_bornder_constants as bb
        g, h = bb(a)
        # Benedict-Bordner relation, and (critical) the double real pole condition scaled by 0.8
        if g != a or abs(h * (2 - g) - g * g) > 1e-10:
            return ('benedict_bornder_constants(%r)' % a, a * a / (2 - a), (g, h)), None
        g, h2 = bb(a, True)
        # h/0.8 is the root < 1 of  g^2 q^2 - 2(2-g^2) q + g^2 = 0
        q = h2 / .8
        if g != a or abs(a * a * q * q - 2 * (2 - a * a) * q + a * a) > 1e-8 or q > 1:
            return ('benedict_bornder_constants(%r, critical)' % a, 0., (g, h2)), None
        return None, (h, h2)


def models(tier):
    th = tier == 'thorough'
    out = []
    zs = [1.7, -2.3, .4]
    d = 6 if th else 4
    for dt in (1., .5, 2.5):
        for order in (0, 1, 2):
            g = [.5, .3, .2][:order + 1]
            ov = [(), (('g', .8),), (('g', .9), ('h', .1))][:order + 2]
            if order >= 1:
                ov.append((('h', .6),))
            if order == 2:
                ov += [(('k', .05),), (('g', .2), ('h', .4), ('k', .3))]
            ops = [('u', i % 3, o) for i, o in enumerate(ov)] + [('u', 1, ()), ('set', 'g', .7), ('q',)]
            if order:
                ops.append(('set', 'h', .15))
            ops.append(('set', 'dt', 1.5))
            zo = [('u', 0, ()), ('u', 1, (('g', 0.),)), ('set', 'g', 0.)]
            if order:
                zo += [('u', 2, (('h', 0.),)), ('u', 1, (('g', 0.), ('h', 0.))), ('set', 'h', 0.)]
            if order == 2:
                zo += [('u', 2, (('k', 0.),)), ('u', 0, (('g', 1.), ('h', 1.), ('k', 1.))), ('set', 'k', 0.)]
            for nm, x0 in (('f', [1.3, -.7, .4]), ('i', [2, 3, 1])):
                out.append(Poly('zero-order%d-%s-dt%g' % (order, nm, dt), 'order', order, dt, x0[:order + 1], g, zo, d - 1, zs + [0.]))
                if order:
                    out.append(Poly('zero-%s-%s-dt%g' % (('gh', 'ghk')[order - 1], nm, dt), ('gh', 'ghk')[order - 1], order, dt, x0[:order + 1], g,
                                    zo + [('u', 3, ())], d - 1, zs + [0.], intx=nm == 'i'))
            for nm, x0, ix in (('f', [1.3, -.7, .4], False), ('z', [2., 0., 0.], False), ('i', [2, 3, 1], True), ('iz', [2, 0, 0], True)):
                out.append(Poly('order%d-%s-dt%g' % (order, nm, dt), 'order', order, dt, x0[:order + 1], g, ops, d - 1,
                                zs, lasso=(1, 60)))
                if order == 1:
                    out.append(Poly('gh-%s-dt%g' % (nm, dt), 'gh', 1, dt, x0[:2], g, ops, d, zs, lasso=(2, 60), intx=ix))
                if order == 2:
                    out.append(Poly('ghk-%s-dt%g' % (nm, dt), 'ghk', 2, dt, x0, g, ops + [('set', 'k', .4)], d - 1, zs, lasso=(2, 60), intx=ix))
        zv = [[1., 2.], [-.5, 3.], [0., -1.]]
        for kind, o in (('gh', 1), ('ghk', 2)):
            out.append(Poly('%s-vec-dt%g' % (kind, dt), kind, o, dt, [[1., 2.], [.3, -.4], [.1, .2]][:o + 1], [.5, .3, .2][:o + 1],
                            [('u', 0, ()), ('u', 1, (('g', .8), ('h', .1))), ('u', 2, ()), ('set', 'dt', .4), ('q',)], d, zv, comps=2))
    st = .05 if th else .1
    gs = np.round(np.arange(st, 1.0001, st), 3)
    hs = np.round(np.arange(st, 2.0001, st), 3)
    ks = [.01, .05, .1, .2, .4]
    out.append(GridFn('vrf-gh', [(2, dt, (float(g), float(h))) for dt in (1., .5, 3.) for g in gs for h in hs], vrf))
    out.append(GridFn('vrf-ghk', [(3, dt, (float(g), float(h), k)) for dt in (1., .5, 3.) for g in gs for h in hs for k in ks], vrf))
    out.append(GridFn('design', [('lsq', 60)] + [('crit', (float(t), o)) for t in np.round(np.arange(.05, 1., .05), 3) for o in (2, 3)] +
                      [('crit-default', float(t)) for t in np.arange(0., 1.01, .1)] +
                      [('crit-bad', (-.1,)), ('crit-bad', (1.1,)), ('crit-bad', (.5, 4)), ('crit-bad', (.5, 1))] +
                      [('noise', float(g)) for g in np.round(np.arange(.05, .8, .02), 3)] +
                      [('bb', float(g)) for g in np.round(np.arange(.05, 1., .05), 3)], design))
    return lengthen(out, 1000 if th else 300)
