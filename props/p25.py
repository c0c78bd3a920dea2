import itertools
import math
import numpy as np
from mc.engine import GridFn, close
from mc import refs

ID = 'P25'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('complete grid: dims 2-4, 8 time steps, 4 densities, block sizes 1-4, both orderings, keyword and default arguments; van Loan / ODE discretization on every small integer '
         'system matrix of a palette (all 2x2 matrices over {-1,0,1}, 1x1, selected 3x3/4x4) x noise inputs x time steps; kinematic transitions of order 0-6; kinematic filters dim 1-4, order 0-5')
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7', 'the measurement matrix of multi-dimensional kinematic filters is not judged']

GL = np.polynomial.legendre.leggauss(24)


def expm(M):
    """scaling and squaring Taylor"""
    M = np.asarray(M, float)
    k = max(0, int(math.ceil(math.log(max(1e-9, np.abs(M).sum()), 2))) + 4)
    A = M / 2. ** k
    E = np.eye(len(M))
    T = np.eye(len(M))
    for i in range(1, 20):
        T = T.dot(A) / i
        E = E + T
    for _ in range(k):
        E = E.dot(E)
    return E


def integral(F, W, dt):
    """int_0^dt e^{Fs} W e^{F's} ds by Gauss-Legendre on subintervals"""
    n = len(F)
    Q = np.zeros((n, n))
    m = max(1, int(math.ceil(dt * np.abs(F).sum())))
    h = dt / m
    for i in range(m):
        for t, w in zip(*GL):
            s = (i + .5 * (t + 1)) * h
            E = expm(F * s)
            Q += .5 * h * w * E.dot(W).dot(E.T)
    return Q


def place(Q, b, by_dim):
    """joint matrix of b independent copies, in either ordering, built entry by entry"""
    d = len(Q)
    out = np.zeros((d * b, d * b))
    for k in range(b):
        for i in range(d):
            for j in range(d):
                r, c = (k * d + i, k * d + j) if by_dim else (i * b + k, j * b + k)
                out[r, c] = Q[i][j]
    return out


def qcheck(case):
    from filterpy.common import Q_discrete_white_noise, Q_continuous_white_noise
    kind, d, dt, var, b, bd = case
    if kind == 'disc':
        G = np.array([dt ** (d - 1 - i) / math.factorial(d - 1 - i) for i in range(d)])
        if d == 2:
            G = np.array([.5 * dt ** 2, dt])
        if d == 3:
            G = np.array([.5 * dt ** 2, dt, 1.])
        Q = np.outer(G, G) * var
        f, kw = Q_discrete_white_noise, 'var'
    else:
        F = np.eye(d, k=1)
        W = np.zeros((d, d))
        W[-1, -1] = var
        Q = integral(F, W, dt)
        f, kw = Q_continuous_white_noise, 'spectral_density'
    want = place(Q, b, bd)
    got = f(d, dt=dt, block_size=b, order_by_dim=bd, **{kw: var})
    if np.shape(got) != want.shape or not close(got, want, 1e-9, 1e-300 + 1e-9 * np.abs(want).max()):
        return ('%s Q%r' % (kind, case), want, got), None
    for i in range(len(want)):       # relative accuracy of every single entry
        for j in range(len(want)):
            if abs(got[i][j] - want[i, j]) > 1e-6 * abs(want[i, j]) + 1e-300:
                return ('%s Q%r entry %d,%d' % (kind, case, i, j), want[i, j], got[i][j]), None
    p = refs.psd(got)
    if p:
        return ('Q ' + p, None, got), None
    g2 = f(d, dt, var, b, bd)
    if not close(g2, got):
        return ('positional arguments', got, g2), None
    if b == 1 and bd:
        if not close(f(d, dt, var), got):
            return ('defaults', got, f(d, dt, var)), None
        if var == 1. and not close(f(d, dt), got):
            return ('default density', got, f(d, dt)), None
        if var == 1. and dt == 1. and not close(f(d), got):
            return ('default dt', got, f(d)), None
    # filtering half a step twice is the same as a whole step (continuous model)
    if kind == 'cont':
        h = f(d, dt=dt / 2, spectral_density=var, block_size=b, order_by_dim=bd)
        Fh = place(expm(np.eye(d, k=1) * dt / 2), b, bd)
        if not close(Fh.dot(h).dot(Fh.T) + h, got, 1e-9, 1e-300 + 1e-9 * np.abs(want).max()):
            return ('two half steps', got, Fh.dot(h).dot(Fh.T) + h), None
    return None, np.asarray(got)


def bad_q(case):
    from filterpy.common import Q_discrete_white_noise, Q_continuous_white_noise
    k, d = case
    try:
        r = (Q_discrete_white_noise if k == 'disc' else Q_continuous_white_noise)(d, 1.)
    except ValueError:
        return None, repr(case)
    return ('dim %r must be rejected' % (case,), 'ValueError', r), None


def reorder(case):
    from filterpy.common import order_by_derivative
    d, b, seed = case
    Q = np.round(np.random.RandomState(seed).uniform(-2, 2, (d, d)), 2)
    Q0 = Q.copy()
    got = order_by_derivative(Q, d, b)
    want = place(Q, b, False)
    if np.shape(got) != want.shape or not close(got, want):
        return ('order_by_derivative%r' % (case,), want, got), None
    if not (Q == Q0).all():
        return ('order_by_derivative modified its input', Q0, Q), None
    if not close(order_by_derivative(Q.tolist(), d, b), want):
        return ('order_by_derivative(list)', want, None), None
    return None, got


def vanloan(case):
    from filterpy.common import van_loan_discretization
    from filterpy.common.discretization import linear_ode_discretation
    F, G, dt = np.array(case[0], float), np.array(case[1], float), case[2]
    F0, G0 = F.copy(), G.copy()
    phi, Q = van_loan_discretization(F, G, dt)
    E = expm(F * dt)
    W = integral(F, G.dot(G.T), dt)
    # the block exponential loses digits when G G' dt is large against F dt
    tp, tq = 1e-12 * np.abs(E).max() * (1 + 100 * np.abs(W).max()), 1e-15 + 1e-10 * np.abs(W).max()
    if not close(phi, E, 1e-11, tp):
        return ('van Loan transition', E, phi), None
    if np.shape(phi) != F.shape or np.shape(Q) != F.shape or not close(Q, W, 1e-10, tq):
        return ('van Loan Q', W, Q), None
    A, q = linear_ode_discretation(F, G, np.eye(G.shape[1]), dt)
    if not close(A, E, 1e-11, tp) or not close(q, W, 1e-10, tq):
        return ('linear_ode_discretation', (E, W), (A, q)), None
    S = np.diag(np.arange(1., G.shape[1] + 1))
    A, q = linear_ode_discretation(F, L=G, Q=S, dt=dt)
    W2 = integral(F, G.dot(S).dot(G.T), dt)
    if not close(q, W2, 1e-10, 1e-15 + 1e-10 * np.abs(W2).max()):
        return ('linear_ode_discretation with Q', W2, q), None
    A, q = linear_ode_discretation(F, dt=dt)
    if not close(A, E, 1e-11, tp) or not close(q, np.zeros_like(F), 1e-7, 1e-10):
        return ('linear_ode_discretation without noise', E, A), None
    if not ((F == F0).all() and (G == G0).all()):
        return ('input modified', F0, F), None
    return None, np.concatenate([phi.ravel(), Q.ravel()])


def kin_F(case):
    from filterpy.common import kinematic_state_transition as k
    order, dt = case
    F = k(order, dt)
    want = np.array([[dt ** (j - i) / math.factorial(j - i) if j >= i else 0. for j in range(order + 1)] for i in range(order + 1)])
    if np.shape(F) != want.shape or not all(abs(a - b) <= 1e-9 * abs(b) for a, b in zip(np.ravel(F), want.ravel())):
        return ('kinematic_state_transition%r' % (case,), want, F), None
    for s in (.25, 1., 2.):
        if not close(k(order, dt).dot(k(order, s)), k(order, dt + s), 1e-9, 1e-9 * (1 + dt + s) ** order):
            return ('composition over time', k(order, dt + s), F.dot(k(order, s))), None
    G = k(order, dt)
    G[0, 0] = 77.
    if k(order, dt)[0, 0] != 1.:
        return ('result shared between calls', 1., 77.), None
    return None, F


def kin_bad(o):
    from filterpy.common import kinematic_state_transition as k
    try:
        r = k(o, 1.)
    except ValueError:
        return None, repr(o)
    return ('order %r must be rejected' % (o,), 'ValueError', r), None


def kin_kf(case):
    from filterpy.common import kinematic_kf
    from filterpy.kalman import KalmanFilter, ExtendedKalmanFilter
    dim, order, dt, dz, bd, own = case
    want = place(np.array([[dt ** (j - i) / math.factorial(j - i) if j >= i else 0. for j in range(order + 1)]
                           for i in range(order + 1)]), dim, bd)
    n = dim * (order + 1)
    kf0 = None
    if own:
        kf0 = KalmanFilter(dim_x=n, dim_z=dz)
        if own == 2:
            kf0.F = np.arange(n * n, dtype=float).reshape(n, n)
    kf = kinematic_kf(dim, order, dt=dt, dim_z=dz, order_by_dim=bd, kf=kf0)
    if kf0 is not None and kf is not kf0:
        return ('the supplied filter must be used', None, None), None
    if np.shape(kf.F) != want.shape or not close(kf.F, want, 1e-9, 1e-12):
        return ('kinematic_kf%r F' % (case,), want, kf.F), None
    I = np.eye(n)
    if not (close(kf.P, I) and close(kf.Q, I) and close(kf.R, np.eye(dz))):
        return ('kinematic_kf%r P, Q, R must be identity' % (case,), I, (kf.P, kf.Q, kf.R)), None
    if kf.x.size != n or np.any(kf.x) or np.shape(kf.H) != (dz, n):
        return ('kinematic_kf%r x/H shape' % (case,), n, (kf.x, kf.H)), None
    if dim == 1:
        H = np.zeros((dz, n))
        H[:, 0] = 1.
        if not close(kf.H, H):
            return ('kinematic_kf%r H' % (case,), H, kf.H), None
    # position derivatives must not be observed
    pos = [k * (order + 1) for k in range(dim)] if bd else list(range(dim))
    H = np.array(kf.H, dtype=float)
    if any(H[:, j].any() for j in range(n) if j not in pos):
        return ('kinematic_kf%r H observes derivatives' % (case,), pos, H), None
    # predictions follow Newtonian motion
    x = np.arange(1., n + 1)
    kf.x = x.reshape(-1, 1).copy()
    kf.predict()
    if not close(kf.x, want.dot(x)):
        return ('kinematic_kf%r predict' % (case,), want.dot(x), kf.x), None
    return None, np.concatenate([want.ravel(), H.ravel()])


def kin_defaults(case):
    from filterpy.common import kinematic_kf
    kf = kinematic_kf(2, 1)
    if not close(kf.F, place(np.array([[1., 1.], [0., 1.]]), 2, True)):
        return ('kinematic_kf defaults', None, kf.F), None
    return None, 'd'


def models(tier):
    th = tier == 'thorough'
    dts = [.01, .1, .5, 1., 1.5, 2., 5., 10., 1e-3, 1e-5, 100.]
    out = [GridFn('Q', [(k, d, dt, v, b, bd) for k in ('disc', 'cont') for d in (2, 3, 4) for dt in (dts if th else dts[1:7] + dts[8:])
                        for v in (1., .3, 7., 1e-4) for b in (1, 2, 3, 4) for bd in (True, False)], qcheck),
           GridFn('Q-bad', [(k, d) for k in ('disc', 'cont') for d in (0, 1, 5)], bad_q),
           GridFn('reorder', [(d, b, s) for d in (1, 2, 3, 4, 5) for b in (1, 2, 3, 4) for s in range(6)], reorder)]
    c = []
    G2 = [[[0.], [1.]], [[2.], [-1.]], [[1., 0.], [.5, 2.]], [[0.], [1e-4]]]
    for e in itertools.product((-1., 0., 1.), repeat=4):
        for G in G2:
            for dt in ((.002, .008, .03, .1, .5, 1., 2.) if th else (.008, .1, 1.)):
                c.append(([[e[0], e[1]], [e[2], e[3]]], G, dt))
    for a in (-2., -.5, 0., 1.):
        for g in (.5, 2.):
            for dt in (.0005, .008, .03, .1, 1., 2.):
                c.append(([[a]], [[g]], dt))
    for dt in (.002, .008, .03, .1, .7, 1.5):
        c.append(([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0.], [0.], [1.]], dt))
        c.append(([[0, 1, 0], [0, 0, 1], [0, 0, -.5]], [[0.], [.3], [1.]], dt))
        c.append(([[-.1, 1, .2], [-1, -.3, 1], [.4, 0, -.5]], [[1., 0.], [.3, .1], [1., 2.]], dt))
        c.append(([[0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1], [0, 0, -1, -.2]], [[0., 0.], [1., 0.], [0., 0.], [.5, 2.]], dt))
    n = (len(c) + 15) // 16
    for i in range(0, len(c), n):
        out.append(GridFn('vanloan-%d' % (i // n), c[i:i + n], vanloan))
    out.append(GridFn('kinF', [(o, dt) for o in range(0, 7) for dt in (0., 1e-6, 1e-3, .1, .5, 1., 2., 3.7, 60., 1e3)], kin_F))
    ints = [0, 1, 2, 3] + [t(v) for t in (np.int64, np.int32) for v in (1, 2, 3)]
    out.append(GridFn('kinF-int', [(o, dt) for o in range(0, 7) for dt in ints], kin_F))
    out.append(GridFn('Q-int', [(k, d, dt, v, b, bd) for k in ('disc', 'cont') for d in (2, 3, 4) for dt in ints[1:] for v in (1, 3, np.int64(2), .3)
                                for b in (1, 2) for bd in (True, False)], qcheck))
    out.append(GridFn('kinKF-int', [(dim, o, dt, 1, bd, own) for dim in (1, 2) for o in range(0, 6) for dt in ints[1:] for bd in (True, False)
                                    for own in (0, 2)], kin_kf))
    out.append(GridFn('kinF-bad', [-1, 1.5, -.5], kin_bad))
    out.append(GridFn('kinKF', [(dim, o, dt, dz, bd, own) for dim in (1, 2, 3, 4) for o in range(0, 6) for dt in (1., .2, 3.)
                                for dz in (1, 2, 3) for bd in (True, False) for own in (0, 1, 2)], kin_kf))
    out.append(GridFn('kin-defaults', [0], kin_defaults))
    return out
