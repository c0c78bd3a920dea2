import itertools
import math
import warnings
import numpy as np
from mc.engine import GridFn, close
from mc import refs
from mc.refs import A

ID = 'P26'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('complete grids: means x variances over 5-8 values each (all pairs and triples), scalar / list / tuple / 1-D / column / row argument forms, dimensions 1-4 with generic covariances, '
         'extreme variances 1e-8..1e8')
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7']

MU = [-3., 0., .5, 2., 10.]
VAR = [.01, .3, 1., 4., 250.]


def covs(n):
    r = np.random.RandomState(100 + n)
    out = []
    for k in range(4):
        a = np.round(r.uniform(-1, 1, (n, n)), 2)
        out.append(np.round(a.dot(a.T) + (.2 + .5 * k) * np.eye(n), 3) * (1., 1e-3, 50., 1e4)[k])
    return out


def vecs(n):
    r = np.random.RandomState(200 + n)
    return [np.round(r.uniform(-2, 2, n), 2) * s for s in (1., .1, 5.)] + [np.zeros(n), np.arange(1, n + 1)]


FORMS = {'1d': lambda v: np.array(v), 'col': lambda v: np.array(v).reshape(-1, 1), 'row': lambda v: np.array(v).reshape(1, -1),
         'list': lambda v: [e for e in v], 'tuple': lambda v: tuple(v), 'listcol': lambda v: [[e] for e in v]}


def pdf1(x, m, v):
    return math.exp(-.5 * (x - m) ** 2 / v) / math.sqrt(2 * math.pi * v)


def uni(case):
    from filterpy import stats as S
    m1, v1, m2, v2 = case
    # product of densities, normalised numerically from its exact moments
    w = 1. / v1 + 1. / v2
    vm, mm = 1. / w, (m1 / v1 + m2 / v2) / w
    r = S.mul(m1, v1, m2, v2)
    if len(r) != 2 or not close(r, (mm, vm), 1e-9, 1e-12):
        return ('mul%r' % (case,), (mm, vm), r), None
    if not close(S.mul(m2, v2, m1, v1), r, 1e-9, 1e-12):
        return ('mul commutes %r' % (case,), r, S.mul(m2, v2, m1, v1)), None
    p = S.mul_pdf(m1, v1, m2, v2)
    if len(p) != 3 or not close(p[:2], (mm, vm), 1e-9, 1e-12):
        return ('mul_pdf%r' % (case,), (mm, vm), p), None
    for x in (-1., 0., 2.):
        a, b = pdf1(x, m1, v1) * pdf1(x, m2, v2), p[2] * pdf1(x, mm, vm)
        if abs(a - b) > 1e-7 * abs(a) + 1e-290:
            return ('mul_pdf scale %r: N1(x) N2(x) = s N(x) at x=%r' % (case, x), a, b), None
    if not close(S.add(m1, v1, m2, v2), (m1 + m2, v1 + v2), 1e-9, 1e-12):
        return ('add%r' % (case,), (m1 + m2, v1 + v2), S.add(m1, v1, m2, v2)), None
    i = S.mul(int(m1), 2, int(m2), 3)
    if not close(i, ((3 * int(m1) + 2 * int(m2)) / 5., 1.2)):
        return ('mul of integers', None, i), None
    return None, list(r) + [p[2]]


def assoc(case):
    from filterpy import stats as S
    a, b, c = case
    l = S.mul(*(S.mul(*(a + b)) + c))
    r = S.mul(*(a + S.mul(*(b + c))))
    if not close(l, r, 1e-8, 1e-10):
        return ('mul associativity %r' % (case,), l, r), None
    l = S.add(*(S.add(*(a + b)) + c))
    if not close(l, (a[0] + b[0] + c[0], a[1] + b[1] + c[1])):
        return ('add associativity', None, l), None
    return None, l


def gauss(case):
    from filterpy import stats as S
    x, m, v = case
    g = S.gaussian(x, m, v)
    w = pdf1(x, m, v)
    if abs(g - w) > 1e-9 * w + 1e-300 or np.ndim(g):
        return ('gaussian%r' % (case,), w, g), None
    if abs(S.gaussian(x, m, v, False) - w) > 1e-9 * w + 1e-300:
        return ('gaussian%r not normed' % (case,), w, None), None
    xs = [x - 1., x, x + .5, x + 3.]
    ww = np.array([pdf1(q, m, v) for q in xs])
    for f in (list, np.array, tuple):
        a = f(xs)
        u = S.gaussian(a, m, v, normed=False)
        if not close(u, ww, 1e-9, 1e-300):
            return ('gaussian(array) not normed %r' % (case,), ww, u), None
        if ww.sum() > 1e-200:
            n = S.gaussian(a, m, v)
            if not close(n, ww / ww.sum(), 1e-9, 1e-300):
                return ('gaussian(array) %r' % (case,), ww / ww.sum(), n), None
        if list(a) != xs:
            return ('gaussian modified its input', xs, a), None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mg = S.multivariate_gaussian(x, m, v)
    if abs(mg - w) > 1e-9 * w + 1e-300:
        return ('multivariate_gaussian%r' % (case,), w, mg), None
    lp = S.logpdf(x, m, v)
    lw = -.5 * (math.log(2 * math.pi * v) + (x - m) ** 2 / v)
    if abs(lp - lw) > 1e-9 * abs(lw) + 1e-9:
        return ('logpdf%r' % (case,), lw, lp), None
    mh = S.mahalanobis(x, m, v)
    if abs(mh - abs(x - m) / math.sqrt(v)) > 1e-9 * (1 + mh):
        return ('mahalanobis%r' % (case,), abs(x - m) / math.sqrt(v), mh), None
    return None, [w, lw, mh]


def cdf(case):
    from filterpy import stats as S
    a, b, m, v = case
    P = lambda x: .5 * math.erfc(-(x - m) / math.sqrt(2 * v))
    w = abs(P(b) - P(a))
    for r, nm in ((S.norm_cdf((a, b), m, v), 'var'), (S.norm_cdf((b, a), m, var=v), 'reversed'),
                  (S.norm_cdf((a, b), m, std=math.sqrt(v)), 'std'), (S.norm_cdf([a, b], m, 17., math.sqrt(v)), 'std overrides var')):
        if abs(r - w) > 1e-9:
            return ('norm_cdf(%s) %r' % (nm, case), w, r), None
    if v == 1. and abs(S.norm_cdf((a, b), m) - w) > 1e-9:
        return ('norm_cdf default variance', w, S.norm_cdf((a, b), m)), None
    return None, w


def multi(case):
    from filterpy import stats as S
    n, i, j, k, f1, f2 = case
    x, m, C = vecs(n)[i], vecs(n)[j], covs(n)[k]
    X, M = FORMS[f1](x), FORMS[f2](m)
    C0 = C.copy()
    X0, M0 = np.array(X), np.array(M)
    lw = refs.gauss_logpdf(x - m, C)
    lp = S.logpdf(X, M, C)
    if np.size(lp) != 1 or abs(float(lp) - lw) > 1e-8 * abs(lw) + 1e-8:
        return ('logpdf%r' % (case,), lw, lp), None
    if not i:
        lz = S.logpdf(X, cov=C)
        if abs(float(lz) - refs.gauss_logpdf(x, C)) > 1e-8 * abs(lw) + 1e-8:
            return ('logpdf without mean', refs.gauss_logpdf(x, C), lz), None
    if 'listcol' not in (f1, f2) or True:
        mh = S.mahalanobis(X, M, C if f1 != 'list' else C.tolist())
        mw = refs.maha(x - m, C)
        if abs(mh - mw) > 1e-8 * (1 + mw):
            return ('mahalanobis%r' % (case,), mw, mh), None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mg = S.multivariate_gaussian(X, M, C if f2 != 'list' else C.tolist())
        w = math.exp(lw)
        if abs(mg - w) > 1e-7 * w + 1e-300:
            return ('multivariate_gaussian%r' % (case,), w, mg), None
        ms = S.multivariate_gaussian(X, M, 1.7)
        ws = math.exp(refs.gauss_logpdf(x - m, 1.7 * np.eye(n)))
        if abs(ms - ws) > 1e-7 * ws + 1e-300:
            return ('multivariate_gaussian scalar covariance %r' % (case,), ws, ms), None
    if not ((C == C0).all() and (np.array(X) == X0).all() and (np.array(M) == M0).all()):
        return ('input modified %r' % (case,), None, None), None
    return None, [lw, mw]


def singular(case):
    """log-density of a degenerate Gaussian: the density on its support, zero off it"""
    from filterpy import stats as S
    n, r, k, i, off, form = case
    V = np.linalg.qr(np.round(np.random.RandomState(10 * n + k).normal(0, 1, (n, n)), 2))[0]
    w = A([2.5, .3, 1.1][:r])
    C = (V[:, :r] * w).dot(V[:, :r].T)
    c = A([[.5, -1., 2.], [0., 0., 0.], [-3., .25, 1.]][i][:r])
    m = A([1., -2., .5, 3.][:n])
    x = m + V[:, :r].dot(c) + (V[:, r:].dot(np.full(n - r, 1.5)) if off else 0.)
    v = S.logpdf(FORMS[form](x), FORMS[form](m), C)
    want = -np.inf if off else -.5 * ((c ** 2 / w).sum() + np.log(w).sum() + r * math.log(2 * math.pi))
    if np.size(v) != 1 or not (float(v) == want or abs(float(v) - want) <= 1e-7 * (1 + abs(want))):
        return ('logpdf of a degenerate Gaussian %r' % (case,), want, v), None
    try:
        S.logpdf(FORMS[form](x), FORMS[form](m), C, allow_singular=False)
    except Exception:
        return None, [n, r, float(c.sum()), want]
    return ('logpdf with allow_singular=False accepts a singular covariance', 'exception', None), None


def scaled(case):
    """extreme scales: the same density with coordinates in other units.  With x = u x', the log density shifts by -n log u"""
    from filterpy import stats as S
    n, i, j, k, e, het = case
    u = 10. ** e * np.ones(n)
    if het:
        u = u ** np.where(np.arange(n) % 2, -.5, 1.)
    x, m, C = vecs(n)[i], vecs(n)[j], covs(n)[k]
    lw = refs.gauss_logpdf(x - m, C) - np.log(u).sum()
    X, M, V = x * u, m * u, C * np.outer(u, u)
    mw = refs.maha(x - m, C)
    mh = S.mahalanobis(X, M, V)
    if abs(mh - mw) > 1e-7 * (1 + mw):
        return ('mahalanobis of scaled variables %r' % (case,), mw, mh), None
    lp = S.logpdf(X, M, V)
    if abs(float(lp) - lw) > 1e-7 * (1 + abs(lw)):
        return ('logpdf of scaled variables %r' % (case,), lw, lp), None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mg = float(S.multivariate_gaussian(X, M, V))
    if abs(lw) < 600 and not (mg > 0 and abs(math.log(mg) - lw) < 1e-6 * (1 + abs(lw))):
        return ('multivariate_gaussian of scaled variables %r' % (case,), math.exp(lw), mg), None
    C2 = covs(n)[(k + 1) % 4]
    i1, i2 = np.linalg.inv(C), np.linalg.inv(C2)
    P = np.linalg.inv(i1 + i2)
    mm = P.dot(i1.dot(x) + i2.dot(m))
    gm, gP = S.multivariate_multiply(X, V, M, C2 * np.outer(u, u))
    if not close(gm / u, mm, 1e-6, 1e-9) or not close(gP / np.outer(u, u), P, 1e-6, 1e-10):
        return ('multivariate_multiply of scaled variables %r' % (case,), (mm, P), (gm, gP)), None
    return None, [lw, mw]


def mmul(case):
    from filterpy import stats as S
    n, i, j, k, l, f = case
    m1, m2, C1, C2 = vecs(n)[i], vecs(n)[j], covs(n)[k], covs(n)[l]
    i1, i2 = np.linalg.inv(C1), np.linalg.inv(C2)
    C = np.linalg.inv(i1 + i2)
    m = C.dot(i1.dot(m1) + i2.dot(m2))
    g = (lambda v: v.tolist()) if f == 'list' else (lambda v: v.copy())
    a = [g(m1), g(C1), g(m2), g(C2)]
    M, P = S.multivariate_multiply(*a)
    if np.shape(M) != (n,) or np.shape(P) != (n, n) or not close(M, m, 1e-6, 1e-9) or not close(P, C, 1e-6, 1e-12):
        return ('multivariate_multiply%r' % (case,), (m, C), (M, P)), None
    M2, P2 = S.multivariate_multiply(a[2], a[3], a[0], a[1])
    if not close(M2, M, 1e-6, 1e-9) or not close(P2, P, 1e-6, 1e-12):
        return ('multivariate_multiply commutes %r' % (case,), (M, P), (M2, P2)), None
    if f != 'list' and not all((p == q).all() for p, q in zip(a, (m1, C1, m2, C2))):
        return ('input modified', None, None), None
    return None, np.concatenate([m, C.ravel()])


def lik(case):
    from filterpy import stats as S
    n, k, z, xf = case
    s = refs.Sys(n, k)
    x = s.x0 if xf == '1d' else s.x0.reshape(-1, 1)
    zz = s.z[z] if xf == '1d' else s.z[z].reshape(-1, 1)
    w = refs.gauss_logpdf(s.z[z] - s.H[1].dot(s.x0), s.H[1].dot(s.P0).dot(s.H[1].T) + s.R[1])
    a = S.log_likelihood(zz, x, s.P0, s.H[1], s.R[1])
    b = S.likelihood(zz, x, s.P0, s.H[1], s.R[1])
    if abs(float(a) - w) > 1e-8 * (1 + abs(w)):
        return ('log_likelihood%r' % (case,), w, a), None
    if abs(float(b) - math.exp(w)) > 1e-7 * math.exp(w):
        return ('likelihood%r' % (case,), math.exp(w), b), None
    return None, w


def nees(case):
    from filterpy import stats as S
    n, T, form = case
    s = refs.Sys(n, 1)
    r = np.random.RandomState(n * 10 + T)
    xs, es = np.round(r.uniform(-2, 2, (T, n)), 2), np.round(r.uniform(-2, 2, (T, n)), 2)
    ps = np.array([(s.P0, s.P1)[t % 2] * (1 + t) for t in range(T)])
    want = [float((xs[t] - es[t]).dot(np.linalg.solve(ps[t], xs[t] - es[t]))) for t in range(T)]
    a = (xs, es, ps) if form == '1d' else (xs.reshape(T, n, 1), es.reshape(T, n, 1), ps)
    if form == 'list':
        a = (xs, es, list(ps))
    if form == 'lists':
        a = (list(xs), list(es), list(ps))
    if form == 'mixed':
        a = ([q.reshape(n, 1) for q in xs], es.reshape(T, n, 1), ps)
    b = [np.array(q) for q in a]
    got = S.NEES(*a)
    if len(got) != T or not close(np.array(got, float).ravel(), want, 1e-8, 1e-10):
        return ('NEES%r' % (case,), want, got), None
    if not all((np.array(p) == q).all() for p, q in zip(a, b)):
        return ('NEES modified its input', None, None), None
    return None, want


def ellipse(case):
    from filterpy import stats as S
    a, b, th, dev = case
    c, s = math.cos(th), math.sin(th)
    R = np.array([[c, -s], [s, c]])
    P = R.dot(np.diag([a, b])).dot(R.T)
    P0 = P.copy()
    o, w, h = S.covariance_ellipse(P, dev)
    if not close((w, h), (dev * math.sqrt(max(a, b)), dev * math.sqrt(min(a, b))), 1e-8, 1e-12):
        return ('covariance_ellipse%r axes' % (case,), (a, b), (w, h)), None
    if a != b:
        d = np.array([math.cos(o), math.sin(o)])
        v = P.dot(d)
        if not close(v, max(a, b) * d, 1e-7, 1e-9):
            return ('covariance_ellipse%r orientation' % (case,), th, o), None
    if dev == 1:
        if not close(S.covariance_ellipse(P)[1:], (w, h)):
            return ('covariance_ellipse default deviations', (w, h), S.covariance_ellipse(P)), None
    if not (P == P0).all():
        return ('covariance_ellipse modified its input', P0, P), None
    return None, [w, h]


def bad(case):
    from filterpy import stats as S
    k = case
    try:
        if k == 'maha':
            r = S.mahalanobis([1., 2.], [1., 2., 3.], np.eye(2))
        elif k == 'maha2d':
            r = S.mahalanobis(np.eye(2), np.eye(2), np.eye(2))
        elif k == 'negcov':
            r = S.multivariate_gaussian(1., 2., -1.)
        else:
            r = S.multivariate_gaussian([1., 2.], [1., 2.], [[1., 2.], [2., 1.]])
    except ValueError:
        return None, k
    return ('%s must be rejected' % k, 'ValueError', r), None


def models(tier):
    th = tier == 'thorough'
    out = []
    V = VAR + [1e-8, 1e8] if th else VAR
    out.append(GridFn('mul-add', list(itertools.product(MU, V, MU, V)), uni))
    g = [(m, v) for m in (-2., .5, 3.) for v in (.2, 1., 9.)]
    out.append(GridFn('associative', list(itertools.product(g, g, g)), assoc))
    out.append(GridFn('gaussian', list(itertools.product([-4., -1., 0., .3, 2.5, 9., 3], [-3., 0., 2., 1], VAR + [2])), gauss))
    out.append(GridFn('norm_cdf', list(itertools.product([-3., 0., 1.], [-1., .5, 4.], [-1., 0., 2.], VAR)), cdf))
    for n in (1, 2, 3, 4):
        fs = sorted(FORMS)
        out.append(GridFn('density-%d' % n, list(itertools.product([n], range(5), range(5), range(4), fs, fs if th else ['1d', 'col', 'list'])), multi))
        out.append(GridFn('multiply-%d' % n, list(itertools.product([n], range(5), range(5), range(4), range(4), ('arr', 'list'))), mmul))
    out.append(GridFn('scales', [(n, i, j, k, e, het) for n in (1, 2, 3, 4) for i in range(5) for j in range(5) for k in range(4)
                                 for e in (-60, -41, -30, -12, -3, 3, 12, 30, 41, 60) for het in (0, 1) if not (het and (abs(e) > 12 or n == 1))], scaled))
    out.append(GridFn('degenerate', [(n, r, k, i, off, f) for n in (2, 3, 4) for r in range(1, n) for k in range(3) for i in range(3) for off in (False, True) for f in ('1d', 'col', 'list')], singular))
    out.append(GridFn('likelihood', list(itertools.product((1, 2, 3, 4), (1, 2, 3), range(6), ('1d', 'col'))), lik))
    out.append(GridFn('nees', list(itertools.product((1, 2, 3, 4), range(1, 7), ('1d', 'col', 'list', 'lists', 'mixed'))), nees))
    ang = [i * math.pi / 12 for i in range(-12, 13)]
    out.append(GridFn('ellipse', list(itertools.product([.25, 1., 4., 9.], [.25, 1., 5.], ang, [1, 2, 3, .5])), ellipse))
    out.append(GridFn('bad', ['maha', 'maha2d', 'negcov', 'notpd'], bad))
    return out
