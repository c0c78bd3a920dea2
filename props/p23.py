import itertools
import math
import numpy as np
from mc import engine
from mc.poly import LSQ

ID = 'P23'
LEVEL = 'model_checking'
BOUND = ('every history of updates (3 measurements), resets and queries up to depth 5 (quick) / 8 (thorough), and periodic histories up to 40 operations; '
         'every periodic measurement sequence with period up to 3 (on top of a drift or not) over 1500 (quick) / 10000 (thorough) updates, checked at 12 moments, again after a reset; '
         'orders 0-2, three time steps, two noise values')
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-6', 'results are only specified once n exceeds the order']
ZS = [2.5, -1.25, 7.]


def fit(order, dt, zz):
    """least squares in discrete orthogonal polynomials: exact and well conditioned for long records"""
    n = len(zz)
    t = np.arange(n) - (n - 1.)
    u = 2 * t / (n - 1.) + 1 if n > 1 else t            # -1 .. 1
    V = np.vander(u, order + 1, increasing=True)
    q, r = np.linalg.qr(V)
    c = np.linalg.solve(r, q.T.dot(zz))
    ri = np.linalg.inv(r)
    C = ri.dot(ri.T)
    s = 2. / (max(n - 1., 1.) * dt)
    # derivatives at u = 1
    J = np.array([[math.perm(j, k) * s ** k for j in range(order + 1)] for k in range(order + 1)])
    return J.dot(c), np.sqrt(np.diag(J.dot(C).dot(J.T)))


def long(case):
    from filterpy.leastsq import LeastSquaresFilter
    order, dt, sg, pat, drift, N = case
    z = np.resize([ZS[i] for i in pat], N) + drift * np.arange(N)
    o = LeastSquaresFilter(dt, order, sg)
    stops = sorted({int(round(N ** (k / 11.) * (1 - .05 * (k % 3)))) for k in range(1, 12)} | {N})
    stops = [q for q in stops if q > order + 1]
    for turn in range(2):
        m = N if turn == 0 else min(N, 200)
        for n in range(1, m + 1):
            if n in stops:
                px, _ = fit(order, dt, z[:n - 1])
            o.update(z[n - 1])
            if n in stops:
                x, s = fit(order, dt, z[:n])
                f = dt ** np.arange(order + 1.)
                sc = np.abs(z[:n]).max()
                a = np.ravel(o.x)
                e, d = o.errors()
                y = z[n - 1] - sum(px[j] * dt ** j / math.factorial(j) for j in range(order + 1))
                if a.shape != x.shape or not engine.close(a * f, x * f, 1e-7, 1e-8 * sc):
                    return ('estimate after %d measurements' % n, x, a), None
                if not engine.close(float(np.ravel(o.y)[0]), y, 1e-7, 1e-8 * sc):
                    return ('residual after %d measurements' % n, y, o.y), None
                for v, w in ((e, 'error'), (d, 'standard deviation')):
                    if not engine.close(v, s * sg, 1e-6, 1e-12 * sg):
                        return ('%s after %d measurements' % (w, n), s * sg, v), None
                if o.n != n:
                    return ('n', n, o.n), None
        o.reset()
    return None, [x]


def models(tier):
    th = tier == 'thorough'
    out = []
    for order in (0, 1, 2):
        for dt in (1., .25, 3.):
            for sg in (0., 1.7):
                m = LSQ('o%d-dt%g-s%g' % (order, dt, sg), order, dt, sg, ZS, 7 if th and dt != 1. else 8 if th else 5,
                        lasso=(3, 40))
                m.rtol = 1e-6
                m.atol = 1e-8
                out.append(m)
        pats = [p for k in (1, 2, 3) for p in itertools.product(range(3), repeat=k) if k == 1 or len(set(p)) > 1]
        for dt in (1., .25, 3.):
            out.append(engine.GridFn('long%d-%g' % (order, dt), [(order, dt, 1.7, p, dr, 10000 if th else 1500) for p in pats for dr in (0., .03)], long))
    return out
