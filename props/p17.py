import itertools
import math
import numpy as np
from mc.engine import GridFn, close
from mc import refs, sp
from mc.refs import A

ID = 'P17'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('complete grid: dimensions 1-7, 5 means, 6 covariances per dimension (identity, generic, diagonal, nearly singular, scaled 1e-6 and 1e6), 24 Merwe and 9 Julier parameter sets, simplex and cubature points; '
         'array/list/scalar arguments, Cholesky/symmetric/user square roots and circular subtraction (two periods, means next to and away from the seam); unscented transform over 7 point sets x weights x noise x mean/residual functions')
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7 (scaled by the weight magnitude for tiny alpha)']


def covs(n):
    r = np.random.RandomState(n)
    a = np.round(r.uniform(-1, 1, (n, n)), 2)
    g = a.dot(a.T) + .5 * np.eye(n)
    b = a.copy()
    return [np.eye(n), g, np.diag(np.arange(1., n + 1)), a.dot(a.T) + 1e-5 * np.eye(n), g * 1e-6, g * 1e6]


def means(n):
    r = np.random.RandomState(50 + n)
    return [np.zeros(n), np.round(r.uniform(-2, 2, n), 2), np.arange(1., n + 1) * 100, -np.ones(n) * 1e-3, np.round(r.uniform(-3, 3, n), 0)]


def userroot(P):
    """another valid factor U with U^T U = P: rotated Cholesky"""
    P = A(P)
    n = len(P)
    Q = np.linalg.qr(np.random.RandomState(9).uniform(-1, 1, (n, n)))[0]
    return Q.dot(np.linalg.cholesky(P).T)


ROOT = {'chol': None, 'sym': sp.symroot, 'user': userroot}


def circ(a, b):
    d = np.subtract(a, b)
    return (d + 20.) % 40. - 20.


def one(case):
    fam, n, mi, ci, root, form = case
    x, P = means(n)[mi], covs(n)[ci]
    rt = ROOT[root]
    S, Wm, Wc = sp.points(fam, x, P, rt)
    xa, Pa = x.copy(), P.copy()
    if fam[0] == 'ckf':
        from filterpy.kalman.CubatureKalmanFilter import spherical_radial_sigmas, ckf_transform
        if form == 'col':
            xa = xa.reshape(-1, 1)
        got = spherical_radial_sigmas(xa, Pa)
        m, C = ckf_transform(got, np.zeros((n, n)))
        if np.shape(got) != S.shape or not close(got, S, 1e-9, 1e-12 + 1e-9 * math.sqrt(np.abs(P).max())):
            return ('cubature points %r' % (case,), S, got), None
        if not close(m, x, 1e-9, 1e-9) or not close(C, P, 1e-7, 1e-7 * np.abs(P).max() + 1e-14 * np.abs(x).max() ** 2 * n):
            return ('cubature transform of its own points %r' % (case,), (x, P), (m, C)), None
        N = np.round(np.random.RandomState(n).uniform(0, 1, (n, n)), 1)
        N0 = N.copy()
        _, C2 = ckf_transform(got, N)
        if not close(C2 - C, N0, 1e-7, 1e-7 * np.abs(P).max() + 1e-9) or not (N == N0).all():
            return ('cubature noise %r' % (case,), N0, C2 - C), None
        return (None, got) if (Pa == P).all() and (xa.ravel() == x).all() else (('inputs modified', P, Pa), None)
    pts = sp.make_points(fam, n, rt)
    k = n + 1 if fam[0] == 'simplex' else 2 * n + 1
    if pts.num_sigmas() != k or len(pts.Wm) != k or len(pts.Wc) != k:
        return ('number of points %r' % (case,), k, (pts.num_sigmas(), len(pts.Wm), len(pts.Wc))), None
    if not close(pts.Wm, Wm, 1e-9) or not close(pts.Wc, Wc, 1e-9):
        return ('weights %r' % (case,), (Wm, Wc), (pts.Wm, pts.Wc)), None
    ws = np.abs(Wm).max()
    if abs(sum(pts.Wm) - 1) > 1e-12 * ws * k + 1e-12:
        return ('mean weights sum %r' % (case,), 1, sum(pts.Wm)), None
    arg, parg = xa, Pa
    if form == 'list':
        arg, parg = x.tolist(), P.tolist()
    elif form == 'scalar':
        arg, parg = float(x[0]), float(P[0, 0])
    elif form == 'scalarP':
        parg = 2.5
        P = np.eye(n) * 2.5
        S, Wm, Wc = sp.points(fam, x, P, rt)
    try:
        got = pts.sigma_points(arg, parg)
        again = pts.sigma_points(arg, parg)
    except TypeError:
        if form == 'list':
            return None, 'listunsupported'
        raise
    if np.shape(got) != S.shape or not close(got, S, 1e-9, 1e-12 + 1e-9 * math.sqrt(np.abs(P).max())):
        return ('sigma points %r' % (case,), S, got), None
    if not (got == again).all() or got is again:
        return ('repeated call gives other points %r' % (case,), got, again), None
    m = np.dot(pts.Wm, got)
    tol = 1e-12 * ws
    if not close(m, x, 1e-9 + tol, 1e-9 + tol):
        return ('weighted mean %r' % (case,), x, m), None
    D = got - x
    C = D.T.dot(np.diag(pts.Wc)).dot(D)
    if not close(C, P, 1e-7 + tol, 1e-14 * ws * np.abs(x).max() ** 2 + 1e-15):
        return ('weighted covariance %r' % (case,), P, C), None
    if not ((xa == x).all() and (form == 'scalarP' or (Pa == P).all())):
        return ('inputs modified %r' % (case,), (x, P), (xa, Pa)), None
    return None, got


def wrapf(half):
    return lambda v: (np.asarray(v) + half) % (2 * half) - half


def subt(case):
    """user subtraction (circular): points are subtract(x, -offset) / subtract(x, offset).
    Means 5-7 lie next to the seam, so that some offsets wrap and their mirror images do not"""
    fam, n, mi, ci, half, root = case
    wrap = wrapf(half)
    P = covs(n)[ci]
    if mi < 5:
        x = means(n)[mi] * (.1 if mi == 2 else 1)
    else:
        sg = (np.ones(n), -np.ones(n), np.array([(-1.) ** i for i in range(n)]))[mi - 5]
        x = sg * (half - .11 * (1 + np.arange(n)))
    S, _, _ = sp.points(fam, x, P, ROOT[root])
    want = wrap(S)
    want[0] = S[0] if fam[0] != 'simplex' else want[0]
    # ambiguous branch points of the user's own function
    d = (S + half) % (2 * half)
    if min(d.min(), (2 * half - d).min()) < 1e-6:
        return None, 'edge'
    x0, P0 = x.copy(), P.copy()
    got = sp.make_points(fam, n, ROOT[root], lambda a, b: wrap(np.subtract(a, b))).sigma_points(x, P)
    if not close(got, want, 1e-9, 1e-9):
        return ('sigma points with user subtraction %r' % (case,), want, got), None
    if not ((x == x0).all() and (P == P0).all()):
        return ('inputs modified %r' % (case,), (x0, P0), (x, P)), None
    return None, got


def wrong(case):
    fam, n, k = case
    try:
        sp.make_points(fam, n).sigma_points(np.zeros(k), np.eye(k))
    except ValueError:
        return None, 'rejected'
    return ('points for dimension %d accepted a mean of size %d' % (n, k), 'ValueError', 'accepted'), None


def ut(case):
    from filterpy.kalman import unscented_transform
    fam, n, mi, ci, noise, mf, rf = case
    x, P = means(n)[mi], covs(n)[ci]
    S, Wm, Wc = sp.points(fam, x, P)
    T = np.array([np.sin(s) * 3 + .2 * s * s.sum() for s in S])
    if n > 1:
        T = T[:, :-1] if ci % 2 else np.c_[T, T[:, 0] * T[:, 1]]
    d = T.shape[1]
    N = None if noise is None else np.round(np.random.RandomState(d).uniform(0, 1, (d, d)), 2)
    mean = (lambda s, w: np.dot(w, s) + .25) if mf else None
    res = (lambda a, b: (a - b) * 1.5 + .1) if rf == 'user' else np.subtract if rf == 'np' else None
    if rf == 'circ':
        res = circ
    wm, wC, _ = sp.ut(T, Wm, Wc, N, mean, res)
    keep = [q.copy() for q in (T, Wm, Wc)] + [None if N is None else N.copy()]
    args = [T.copy(), Wm.copy(), Wc.copy(), None if N is None else N.copy()]
    kw = {}
    if mf:
        kw['mean_fn'] = mean
    if rf:
        kw['residual_fn'] = res
    m, C = unscented_transform(*args, **kw)
    tol = 1e-12 * np.abs(Wc).max()
    sc = np.abs(T).max() ** 2 * tol + 1e-9
    if not close(m, wm, 1e-9 + tol, 1e-9 + tol * np.abs(T).max()) or np.shape(C) != wC.shape or not close(C, wC, 1e-7 + tol, sc):
        return ('unscented transform %r' % (case,), (wm, wC), (m, C)), None
    for a, b in zip(args, keep):
        if a is not None and not (a == b).all():
            return ('unscented transform modified its input %r' % (case,), b, a), None
    m2, C2 = unscented_transform(*args, **kw)
    if not (np.array_equal(m, m2) and np.array_equal(C, C2)):
        return ('repeated transform differs %r' % (case,), (m, C), (m2, C2)), None
    return None, np.concatenate([np.ravel(m), np.ravel(C)])


def fams(n, th):
    out = [('merwe', a, b, k) for a in (1e-3, .1, .5, 1., 1.7) for b in (0., 2.) for k in (0., 1., 3. - n) if n + k > 0]
    out += [('julier', k) for k in (0., .5, 1., 2., 3. - n, -.5, 10.) if n + k > 0 and not (k == 0. and False)]
    out += [('simplex',), ('ckf',)]
    return list(dict.fromkeys(out))


def models(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 10 if th else 8):
        F = fams(n, th)
        out.append(GridFn('points-%d' % n, [(f, n, m, c, r, fo) for f in F for m in range(5) for c in range(6) for r in ROOT
                                            for fo in (['arr', 'col'] if f[0] == 'ckf' else ['arr', 'scalarP'] + (['scalar'] if n == 1 else []))
                                            if not (f[0] == 'ckf' and r != 'chol')], one))
        out.append(GridFn('subtract-%d' % n, [(f, n, m, c, h, r) for f in F if f[0] != 'ckf' for m in range(8) for c in range(3)
                                              for h in (20., math.pi) for r in ('chol', 'sym')], subt))
        out.append(GridFn('wrong-%d' % n, [(f, n, k) for f in F if f[0] != 'ckf' for k in (n - 1, n + 1, 2 * n) if k > 0], wrong))
        if n <= (6 if th else 4):
            out.append(GridFn('ut-%d' % n, [(f, n, m, c, N, mf, rf) for f in F for m in range(5) for c in range(4) for N in (None, 1)
                                            for mf in (0, 1) for rf in (None, 'np', 'user', 'circ')
                                            if not (f[:2] == ('merwe', 1e-3) and (rf == 'circ' or mf))], ut))
    return out
