import itertools
import numpy as np
from mc.engine import GridFn

ID = 'P33'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('every dimension triple in {-2..4}^2 x {-2..2} for the five validating filter classes and every valid triple for the others; orders -2..5 of every polynomial filter and model builder; every list of 0..4 mode filters with state shapes from 4; '
         'bank sizes 1..3 x prior lengths 0..4; the dimension self test on every combination of one or two of its 7 arrays replaced by each of 9 shapes; '
         'sequence length pairs up to 4; 12 fading factors; 15 probability arguments; every malformed batch element')
ASSUMPTIONS = ['any exception counts as a rejection where the documentation names none']

REJ = 'rejected'


def attempt(f, exc=Exception):
    try:
        return f()
    except exc:
        return REJ


def bad(*a):
    return a, None


def make(kind, x, z, u):
    import filterpy.kalman as k
    from filterpy.hinfinity import HInfinityFilter
    if kind == 'kf':
        return k.KalmanFilter(x, z, u)
    if kind == 'kfkw':
        return k.KalmanFilter(dim_u=u, dim_z=z, dim_x=x)
    if kind == 'sqrt':
        return k.SquareRootKalmanFilter(x, z, u)
    if kind == 'info':
        return k.InformationFilter(x, z, u)
    if kind == 'fading':
        return k.FadingKalmanFilter(1.02, x, z, u)
    if kind == 'ekf':
        return k.ExtendedKalmanFilter(x, z, u)
    if kind == 'hinf':
        return HInfinityFilter(x, z, u, .01)
    if kind == 'fls':
        return k.FixedLagSmoother(x, z, N=2)
    if kind == 'ckf':
        return k.CubatureKalmanFilter(x, z, 1., hx=lambda s: np.resize(s, z), fx=lambda s, dt: s)
    if kind == 'ukf':
        return k.UnscentedKalmanFilter(x, z, 1., hx=lambda s: np.resize(s, z), fx=lambda s, dt: s, points=k.MerweScaledSigmaPoints(x, .5, 2., 1.))
    if kind == 'enkf':
        return k.EnsembleKalmanFilter(np.zeros(x), np.eye(x), z, 1., 5, hx=lambda s: np.resize(s, z), fx=lambda s, dt: s)


SHAPES = {
    'kf': 'x:n1 P:nn F:nn Q:nn H:mn R:mm K:nm y:m1 S:mm SI:mm z:m1 M:nm x_prior:n1 P_prior:nn x_post:n1 P_post:nn',
    'sqrt': 'x:n1 P:nn F:nn Q:nn H:mn R:mm K:nm y:m1 x_prior:n1 P_prior:nn x_post:n1 P_post:nn',
    'info': 'x:n1 P_inv:nn Q:nn R_inv:mm y:m1 x_prior:n1 P_inv_prior:nn x_post:n1 P_inv_post:nn',
    'fading': 'x:n1 P:nn Q:nn R:mm y:m1 x_prior:n1 P_prior:nn x_post:n1 P_post:nn',
    'ekf': 'x:n1 P:nn F:nn Q:nn R:mm y:m1 S:mm x_prior:n1 P_prior:nn x_post:n1 P_post:nn',
    'hinf': 'x:n1 P:nn Q:nn y:m1 z:m1',
    'fls': 'x:n1 P:nn F:nn Q:nn H:mn R:mm y:m1 S:mm',
    'ckf': 'x:n P:nn Q:nn R:mm S:mm x_prior:n P_prior:nn',
    'ukf': 'x:n P:nn Q:nn R:mm K:nm y:m S:mm SI:mm',
    'enkf': 'x:n P:nn Q:nn R:mm K:nm S:mm x_prior:n P_prior:nn',
}
SHAPES['kfkw'] = SHAPES['kf']


def dims(case):
    kind, x, z, u = case
    valid = x >= 1 and z >= 1 and u >= 0
    o = attempt(lambda: make(kind, x, z, u))
    if not valid:
        return bad('%s with dim_x=%d dim_z=%d dim_u=%d' % case, REJ, 'accepted') if o is not REJ else (None, 'r')
    if o is REJ:
        return bad('%s with dim_x=%d dim_z=%d dim_u=%d' % case, 'accepted', REJ)
    for n, d in (('dim_x', x), ('dim_z', z), ('dim_u', u)):
        if n in vars(o) and getattr(o, n) != d:
            return bad('%s.%s' % (kind, n), d, getattr(o, n))
    for e in SHAPES[kind].split():
        a, s = e.split(':')
        want = tuple({'n': x, 'm': z, '1': 1}[c] for c in s)
        got = np.shape(getattr(o, a))
        if got != want and not (got == want[:1] and a in ('y', 'z') and kind in ('ckf', 'ukf')):
            return bad('shape of %s.%s for dim_x=%d dim_z=%d' % (kind, a, x, z), want, got)
    for a in ('P', 'Q', 'R', 'P_inv', 'R_inv'):
        v = getattr(o, a, None)
        if np.ndim(v) == 2 and kind not in ('enkf', 'hinf'):
            if not (np.asarray(v) == np.eye(len(v))).all():
                return bad('%s.%s initially' % (kind, a), 'identity', v)
    if kind != 'enkf' and np.any(np.asarray(o.x, float)):
        return bad('%s.x initially' % kind, 0., o.x)
    # it runs, with gains and residuals of the right shape
    F, H = np.eye(x) * .9, np.resize(np.eye(max(x, z)), (z, x))
    zz = np.ones((z, 1)) if kind not in ('ckf', 'ukf', 'enkf') else np.ones(z)
    sx = np.shape(o.x)
    if kind == 'ekf':
        o.F = F
        o.predict()
        o.update(zz, lambda s: H, lambda s: H.dot(s))
    elif kind == 'fls':
        o.F, o.H = F, H
        for _ in range(4):
            o.smooth(zz)
    else:
        if kind not in ('ckf', 'ukf', 'enkf'):
            o.F = F
            o.H = H
        if kind == 'hinf':
            o.W = np.eye(x) * .1
            o.V = np.eye(z)
        o.predict()
        o.update(zz)
        if u and kind in ('kf', 'sqrt', 'info', 'fading', 'hinf'):
            o.B = np.ones((x, u))
            o.predict(u=np.ones((u, 1)))
    if kind != 'fls' and np.shape(o.K) != (x, z):
        return bad('shape of %s.K after an update' % kind, (x, z), np.shape(o.K))
    if kind != 'enkf' and np.size(o.y) != z:
        return bad('size of %s.y after an update' % kind, z, np.shape(o.y))
    if kind != 'ckf' and np.shape(o.x) != sx:
        return bad('shape of %s.x after predict and update' % kind, sx, np.shape(o.x))
    P = o.P_inv if kind == 'info' else o.P
    if np.shape(P) != (x, x):
        return bad('shape of %s.P after predict and update' % kind, (x, x), np.shape(P))
    if not np.isfinite(np.asarray(o.x, float)).all() or not np.isfinite(np.asarray(P, float)).all():
        return bad('%s: finite estimates' % kind, True, (o.x, P))
    return None, '%s%d%d%d' % case


def lags(case):
    from filterpy.kalman import EnsembleKalmanFilter
    nx, dz, N, nd = case
    x = np.zeros(nx) if nd == 1 else np.zeros((nx, 1))
    valid = dz >= 1 and N >= 1 and nd == 1
    st = np.random.get_state()
    o = attempt(lambda: EnsembleKalmanFilter(x, np.eye(nx), dz, 1., N, None, None))
    np.random.set_state(st)
    if (o is not REJ) != valid:
        return bad('ensemble filter with dim_z=%d N=%d, state of %d dimensions' % (dz, N, nd), 'accepted' if valid else REJ, 'accepted' if o is not REJ else REJ)
    if valid and np.shape(o.sigmas) != (N, nx):
        return bad('shape of the ensemble', (N, nx), np.shape(o.sigmas))
    return None, str(case)


def alpha(case):
    from filterpy.kalman import KalmanFilter, FadingKalmanFilter
    how, a = case
    valid = np.isscalar(a) and a >= 1
    if how == 'set':
        o = KalmanFilter(2, 1)
        o.alpha = 1.5
        r = attempt(lambda: setattr(o, 'alpha', a))
        if (r is not REJ) != valid:
            return bad('alpha = %r' % (a,), valid, r)
        want = a if valid else 1.5
        if abs(o.alpha - want) > 1e-12 * want:
            return bad('alpha after assigning %r' % (a,), want, o.alpha)
    else:
        if not np.isscalar(a):
            return None, 'x'
        r = attempt(lambda: FadingKalmanFilter(a, 2, 1))
        if (r is not REJ) != valid:
            return bad('FadingKalmanFilter(alpha=%r)' % (a,), valid, r)
        if valid and abs(r.alpha - a) > 1e-12 * a:
            return bad('alpha', a, r.alpha)
    return None, str(case)


ST = [(1, 1), (2, 1), (2,), (3, 1)]


def bank(case):
    from filterpy.kalman import IMMEstimator, KalmanFilter
    shapes = case
    fs = []
    for i in shapes:
        f = KalmanFilter(ST[i][0], 1)
        f.x = np.zeros(ST[i])
        fs.append(f)
    n = len(fs)
    valid = n >= 2 and len(set(shapes)) == 1
    o = attempt(lambda: IMMEstimator(fs, [1. / n] * n if n else [], np.full((n, n), 1. / max(n, 1))))
    if (o is not REJ) != valid:
        return bad('IMM of filters with states of shape %r' % ([ST[i] for i in shapes],), valid, o is not REJ)
    if valid and (o.N != n or np.shape(o.x) != ST[shapes[0]] or np.shape(o.P) != (ST[shapes[0]][0],) * 2 or np.shape(o.mu) != (n,) or np.shape(o.omega) != (n, n)):
        return bad('shapes of the IMM', n, (o.N, np.shape(o.x), np.shape(o.P), np.shape(o.mu), np.shape(o.omega)))
    return None, str(case)


def mmae(case):
    from filterpy.kalman import MMAEFilterBank, KalmanFilter
    n, np_, dx = case
    fs = [KalmanFilter(2, 1) for _ in range(n)]
    valid = n == np_ and dx >= 1
    o = attempt(lambda: MMAEFilterBank(fs, [1. / max(np_, 1)] * np_, dx))
    if (o is not REJ) != valid:
        return bad('MMAE of %d filters, %d probabilities, dim_x=%d' % case, valid, o is not REJ)
    return None, str(case)


def order(case):
    kind, k = case
    from filterpy.gh import GHFilterOrder
    from filterpy.leastsq import LeastSquaresFilter
    from filterpy.memory import FadingMemoryFilter
    from filterpy.common import kinematic_state_transition, kinematic_kf, Q_discrete_white_noise, Q_continuous_white_noise
    from filterpy.gh import critical_damping_parameters
    f, valid, size = {
        'gh': (lambda: len(GHFilterOrder(0., 1., k, .5, .2, .1).x), 0 <= k <= 2, k + 1),
        'lsq': (lambda: len(LeastSquaresFilter(1., k).x), 0 <= k <= 2, k + 1),
        'mem': (lambda: len(FadingMemoryFilter(0., 1., k, .5).x), 0 <= k <= 2, k + 1),
        'kst': (lambda: len(kinematic_state_transition(k, .5)), k >= 0 and int(k) == k, k + 1),
        'kkf-order': (lambda: kinematic_kf(2, k).dim_x, k >= 0, 2 * (k + 1)),
        'kkf-dim': (lambda: kinematic_kf(k, 1).dim_x, k >= 1, 2 * k),
        'kkf-dimz': (lambda: kinematic_kf(1, 2, dim_z=k).dim_z, k >= 1, k),
        'kkf-dimx': (lambda: kinematic_kf(1, 2, kf=__import__('filterpy.kalman').kalman.KalmanFilter(max(k, 1), 1)).dim_x, max(k, 1) == 3, 3),
        'kkf-kfz': (lambda: kinematic_kf(1, 1, dim_z=2, kf=__import__('filterpy.kalman').kalman.KalmanFilter(2, max(k, 1))).dim_x, max(k, 1) == 2, 2),
        'qd': (lambda: len(Q_discrete_white_noise(k)), k in (2, 3, 4), k),
        'qc': (lambda: len(Q_continuous_white_noise(k)), k in (2, 3, 4), k),
        'qdv': (lambda: len(Q_discrete_white_noise(k, order_by_dim=False, block_size=2)), k in (2, 3, 4), 2 * k),
        'qcv': (lambda: len(Q_continuous_white_noise(k, order_by_dim=False, block_size=2)), k in (2, 3, 4), 2 * k),
        'crit': (lambda: len(critical_damping_parameters(.5, k)), k in (2, 3), k),
    }[kind]
    r = attempt(f)
    if (r is not REJ) != valid:
        return bad('%s with %r' % case, 'accepted' if valid else REJ, r)
    if valid and r != size:
        return bad('size for %s with %r' % case, size, r)
    return None, str(case)


def theta(case):
    from filterpy.gh import critical_damping_parameters
    t, o = case
    r = attempt(lambda: critical_damping_parameters(t, o))
    if (r is not REJ) != (0 <= t <= 1):
        return bad('critical_damping_parameters(%g, %d)' % case, 0 <= t <= 1, r)
    return None, str(case)


# ---- the dimension self test

def selftest(case):
    n, m, form, repl, zarg, pas = case
    from filterpy.kalman import KalmanFilter
    kf = KalmanFilter(n, m)
    sh = dict(x=(n, 1) if form == 'col' else (n,), P=(n, n), F=(n, n), Q=(n, n), H=(m, n), R=(m, m))
    for k, s in repl:
        sh[k] = s
    for k in ('x', 'P', 'F', 'Q', 'H', 'R'):
        if not (pas and k in ('F', 'Q', 'H', 'R')):
            setattr(kf, k, np.ones(sh[k]))
    kw = {k: np.ones(sh[k]) for k in ('F', 'Q', 'H', 'R')} if pas else {}
    if zarg is not None:
        kw['z'] = 1.5 if zarg == () else np.ones(zarg)
    # what is consistent: the filter's dimensions, H with any number of rows, R to match, z like Hx
    hm = sh['H'][0] if len(sh['H']) == 2 else None
    ok = (sh['x'] in ((n,), (n, 1)) and sh['P'] == sh['F'] == sh['Q'] == (n, n) and hm is not None and sh['H'][1] == n and
          (sh['R'] == (hm, hm) or (hm == 1 and sh['R'] in ((), (1,)))))
    if ok:
        hx = (hm,) if len(sh['x']) == 1 else (hm, 1)
        zs = (kf.dim_z, 1) if zarg is None else zarg
        if zs == hx:
            pass
        elif hm == 1 and zs in ((), (1,), (1, 1)):
            pass
        elif zarg is None and zs[0] == hm:
            return None, 'undocumented'            # 1-d state, default z
        elif len(zs) > 1 and 1 in zs and max(zs) == hm or len(zs) == 1 and zs[0] == hm:
            return None, 'undocumented'            # forms of the right size
        elif hm == 1 and len(zs) and zs[0] == 1:
            return None, 'undocumented'
        else:
            ok = False
    before = {k: np.copy(getattr(kf, k)) for k in ('x', 'P', 'F', 'Q', 'H', 'R')}
    r = attempt(lambda: kf.test_matrix_dimensions(**kw), (AssertionError, ValueError, IndexError))
    for k, v in before.items():
        if np.shape(getattr(kf, k)) != v.shape or not (getattr(kf, k) == v).all():
            return bad('self test changed %s' % k, v, getattr(kf, k))
    if (r is not REJ) != ok:
        return bad('test_matrix_dimensions, dim_x=%d dim_z=%d, shapes %r, z %r, passed as arguments: %s' % (n, m, sh, zarg, pas), 'accepted' if ok else REJ, 'accepted' if r is not REJ else REJ)
    return None, 'ok' if ok else 'no'


def selfcases(n, m, th):
    S = [(), (1,), (n,), (m,), (n, 1), (1, n), (n, n), (m, n), (m, m), (n + 1, n + 1), (n, n + 1), (m + 1, n), (m + 1, m + 1), (m, n + 1), (n + 1, 1), (n, 2), (n, 1, 1)]
    S = list(dict.fromkeys(S))
    Z = list(dict.fromkeys([None, (), (1,), (m,), (m, 1), (1, 1), (m + 1, 1), (m + 1,), (m, 2)]))
    K = ('x', 'P', 'F', 'Q', 'H', 'R')
    out = []
    for form in ('col', '1d'):
        for pas in (0, 1):
            for z in Z:
                out.append((n, m, form, (), z, pas))
                for k in K:
                    for s in S:
                        if k in ('x', 'P', 'Q', 'F') and len(s) == 0:
                            continue
                        out.append((n, m, form, ((k, s),), z, pas))
            for a, b in itertools.combinations(K, 2) if th else [('H', 'R')]:
                for sa, sb in itertools.product(S, S):
                    if len(sa) == 0 and a != 'R' or len(sb) == 0 and b != 'R':
                        continue
                    for z in (None, (m, 1), (m + 1, 1)):
                        out.append((n, m, form, ((a, sa), (b, sb)), z, pas))
    return [c for c in out if not any(k == 'H' and len(s) == 0 for k, s in c[3])]


# ---- sequences

def seqs(case):
    kind, a, b = case
    import filterpy.kalman as k
    Xs, Ps = np.zeros((a, 2, 1)), np.tile(np.eye(2), (b, 1, 1))
    if kind == 'kf':
        o = k.KalmanFilter(2, 1)
        o.F = np.eye(2)
        f = lambda: o.rts_smoother(Xs, Ps)
    elif kind == 'proc':
        o = None
        f = lambda: k.rts_smoother(Xs, Ps, [np.eye(2)] * max(a, b), [np.eye(2)] * max(a, b))
    else:
        o = k.UnscentedKalmanFilter(2, 1, 1., hx=lambda s: s[:1], fx=lambda s, dt: s, points=k.MerweScaledSigmaPoints(2, .5, 2., 1.))
        Xs = Xs[:, :, 0]
        f = lambda: o.rts_smoother(Xs, Ps)
    r = attempt(f)
    if (r is not REJ) != (a == b):
        return bad('%s smoother with %d means and %d covariances' % case, a == b, r is not REJ)
    if r is not REJ and (np.shape(r[0]) != np.shape(Xs) or np.shape(r[1]) != np.shape(Ps)):
        return bad('%s smoother: shapes' % kind, (np.shape(Xs), np.shape(Ps)), (np.shape(r[0]), np.shape(r[1])))
    return None, str(case)


def ubatch(case):
    import filterpy.kalman as k
    m, what = case
    o = k.UnscentedKalmanFilter(3, m, 1., hx=lambda s: s[:m], fx=lambda s, dt: s * .9, points=k.MerweScaledSigmaPoints(3, .5, 2., 0.))
    x0, P0 = o.x.copy(), o.P.copy()
    zs, valid = {
        'scalar': (3., False),
        'scalars': ([1., 2., 3.], m == 1),
        'ones': ([np.array([1.])] * 3, m == 1),
        'twos': ([np.array([1., 2.])] * 3, m == 2),
        'lists': ([[1., 2.], [3., 4.]], m == 2),
        'threes': ([np.ones(3)] * 2, m == 3),
        'array1': (np.ones((4, 1)), m == 1),
        'array2': (np.ones((4, 2)), m == 2),
        'none': ([None, None], True),
        'none+': ([None] + [1. if m == 1 else np.ones(m)], True),
    }[what]
    r = attempt(lambda: o.batch_filter(zs))
    if (r is not REJ) != valid:
        return bad('UKF.batch_filter of %s with dim_z=%d' % (what, m), valid, r is not REJ)
    if r is REJ and what in ('scalar', 'twos', 'threes', 'ones') and not ((o.x == x0).all() and (o.P == P0).all()):
        return bad('a rejected sequence changes the filter', (x0, P0), (o.x, o.P))
    if r is not REJ and (np.shape(r[0]) != (len(zs), 3) or np.shape(r[1]) != (len(zs), 3, 3)):
        return bad('shapes of the batch results', len(zs), (np.shape(r[0]), np.shape(r[1])))
    return None, str(case)


def wrongz(case):
    """a measurement of the wrong size is refused and changes no estimate"""
    from filterpy.kalman import KalmanFilter, CubatureKalmanFilter
    kind, n, m, zs, pre = case
    if kind == 'kf':
        o = KalmanFilter(n, m)
        o.H = np.resize(np.eye(3), (m, n))
        o.x = np.arange(1., n + 1).reshape(-1, 1)
        o.predict()
        if pre:
            o.update(np.ones(m))
        f = lambda: o.update(np.ones(zs))
    x0, P0 = o.x.copy(), o.P.copy()
    size = int(np.prod(zs)) if zs else 1
    valid = size == m and (len(zs) < 2 or 1 in zs)
    r = attempt(f)
    if (r is not REJ) != valid:
        return bad('update with a measurement of shape %r, dim_z=%d' % (zs, m), valid, r is not REJ)
    if r is REJ and not ((o.x == x0).all() and (o.P == P0).all()):
        return bad('a refused measurement changes the estimate', (x0, P0), (o.x, o.P))
    return None, str(case)


def sigma(case):
    import filterpy.kalman as k
    fam, n, xl, col = case
    o = {'m': k.MerweScaledSigmaPoints, 'j': k.JulierSigmaPoints, 's': k.SimplexSigmaPoints}[fam](*((n, .5, 2., 1.) if fam == 'm' else (n, 1.)))
    r = attempt(lambda: o.sigma_points(np.ones((xl, 1)) if col % 2 and fam == 's' else np.ones(xl), np.eye(xl) if col < 2 else np.eye(n) if col < 4 else 2.))
    if (r is not REJ) != (xl == n):
        return bad('%s sigma points of dimension %d for a state of %d' % (fam, n, xl), xl == n, r is not REJ)
    w = {'m': 2 * n + 1, 'j': 2 * n + 1, 's': n + 1}[fam]
    if r is not REJ and (np.shape(r) != (w, n) or o.num_sigmas() != w or len(o.Wm) != w or len(o.Wc) != w):
        return bad('number of sigma points', (w, n), (np.shape(r), o.num_sigmas(), len(o.Wm), len(o.Wc)))
    return None, str(case)


def statarg(case):
    from filterpy.stats import mahalanobis, multivariate_gaussian, NEES
    kind, a, b = case
    if kind == 'mahal':
        r = attempt(lambda: mahalanobis(np.ones(a), np.zeros(b), np.eye(a)))
        valid = a == b
    elif kind == 'mahalcov':
        r = attempt(lambda: mahalanobis(np.ones(a), np.zeros(a), np.eye(b)))
        valid = a == b
    elif kind == 'mahal2d':
        r = attempt(lambda: mahalanobis(np.ones((a, b)), np.zeros((a, b)), np.eye(a * b)))
        valid = a == 1 or b == 1
    if (r is not REJ) != valid:
        return bad('%s with sizes %d and %d' % case, valid, r)
    return None, str(case)


def models(tier):
    th = tier == 'thorough'
    out = []
    R, U = range(-2, 5), range(-2, 3)
    for kind in ('kf', 'kfkw', 'sqrt', 'info', 'fading'):
        out.append(GridFn('dims-' + kind, [(kind, x, z, u) for x in R for z in R for u in U], dims))
    for kind in ('ekf', 'hinf', 'fls', 'ckf', 'ukf', 'enkf'):
        out.append(GridFn('dims-' + kind, [(kind, x, z, u) for x in range(1, 6) for z in range(1, 5) for u in ((0, 1, 2) if kind in ('ekf', 'hinf') else (0,))], dims))
    out.append(GridFn('ensemble', [(n, z, N, d) for n in (1, 2, 3) for z in range(-2, 4) for N in range(-2, 6) for d in (1, 2)], lags))
    out.append(GridFn('alpha', [(h, a) for h in ('set', 'new') for a in (-2., -1, 0, 0., .5, .999, .9999999, 1, 1., 1.0001, 1.5, 3, 20., [1.1], np.array([1.2]), (2., 3.))], alpha))
    out.append(GridFn('imm', [c for n in range(5) for c in itertools.product(range(4), repeat=n)], bank))
    out.append(GridFn('mmae', list(itertools.product(range(1, 4), range(0, 5), range(-2, 4))), mmae))
    for k in ('gh', 'lsq', 'mem', 'kst', 'kkf-order', 'kkf-dim', 'kkf-dimz', 'kkf-dimx', 'kkf-kfz', 'qd', 'qc', 'qdv', 'qcv', 'crit'):
        out.append(GridFn('order-' + k, [(k, v) for v in range(-3, 8)] + ([('kst', v) for v in (.5, 1.5, -.5, 2.25)] if k == 'kst' else []), order))
    out.append(GridFn('theta', [(t, o) for t in (-5., -1., -.01, -1e-9, 0, 0., .3, .5, .99, 1, 1., 1.000001, 1.5, 2, 10.) for o in (2, 3)], theta))
    for n in range(1, 5 if th else 4):
        for m in range(1, 4):
            out.append(GridFn('selftest-%dx%d' % (n, m), selfcases(n, m, th), selftest))
    out.append(GridFn('smoothers', [(k, a, b) for k in ('kf', 'proc', 'ukf') for a in range(1, 5) for b in range(1, 5)], seqs))
    out.append(GridFn('ukf-batch', [(m, w) for m in (1, 2, 3) for w in ('scalar', 'scalars', 'ones', 'twos', 'lists', 'threes', 'array1', 'array2', 'none', 'none+')], ubatch))
    out.append(GridFn('wrong-size', [('kf', n, m, z, p) for n in (1, 2, 3) for m in (1, 2, 3) for z in ((), (1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (3, 3)) for p in (0, 1)], wrongz))
    out.append(GridFn('sigma', [(f, n, x, c) for f in 'mjs' for n in range(1, 6) for x in range(1, 7) for c in range(6)], sigma))
    out.append(GridFn('stats', [(k, a, b) for k in ('mahal', 'mahalcov', 'mahal2d') for a in range(1, 5) for b in range(1, 5)], statarg))
    return out
