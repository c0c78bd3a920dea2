import itertools
import math
import warnings
import numpy as np
import scipy.special as sc
from mc.engine import GridFn, close

ID = 'P34'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('3 means x 9 covariances (diagonal, correlated both ways, nearly singular, equal axes) x every way of giving the size (variance, standard deviation, confidence '
         'interval; scalar, lists of 2 and 3) x covariance/ellipse form; 5 3-D covariances x 3 means x 3 sizes; densities and distributions over 4 means x 4 variances x '
         'variance/std forms x 3 ranges x given/current axes; 6 discrete distributions; every option value')
ASSUMPTIONS = ['the drawn objects are read back from the Matplotlib axes (Agg)', 'curve sampling density and decorations (colours, semi-axes) are not part of the property']


def mpl():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def bad(*a):
    return a, None


COVS = [[[1., 0.], [0., 1.]], [[4., 0.], [0., 1.]], [[1., 0.], [0., 9.]], [[4., 1.2], [1.2, 1.]], [[4., -1.2], [-1.2, 1.]], [[1., .5], [.5, 7.]],
        [[2., -1.99], [-1.99, 2.]], [[1e-4, 0.], [0., 1e4]], [[.3, -.2], [-.2, .9]]]
SIZES = [({}, [1.]), (dict(variance=4.), [2.]), (dict(variance=(1., 4., 9.)), [1., 2., 3.]), (dict(variance=[.25, 2.]), [.5, 2 ** .5]),
         (dict(std=3.), [3.]), (dict(std=(1, 2)), [1., 2.]), (dict(std=[.5, 1., 2.5]), [.5, 1., 2.5]), (dict(std=2., variance=9.), [2.]),
         (dict(interval=.68), [float(sc.ndtri(.84))]), (dict(interval=(.5, .95)), [float(sc.ndtri(.75)), float(sc.ndtri(.975))])]
TH = np.linspace(0, 2 * np.pi, 49)
CIRC = np.column_stack([np.cos(TH), np.sin(TH)])


def outlines(ax):
    out = []
    for p in ax.patches:
        out.append(p.get_patch_transform().transform(CIRC))
    return out


def ellipse(case):
    import warnings
    from filterpy.stats import plot_covariance, plot_covariance_ellipse, covariance_ellipse
    mean, cov, si, form = case
    kw, sds = SIZES[si]
    plt = mpl()
    kw = dict(kw)
    C = np.array(cov)
    if form == 'ellipse':
        # the same ellipse given by its parameters: angle, radii
        w, v = np.linalg.eigh(C)
        kw['ellipse'] = (math.atan2(v[1, 1], v[0, 1]), math.sqrt(w[1]), math.sqrt(w[0]))
    elif form == 'list':
        kw['cov'] = cov
    else:
        kw['cov'] = C
    if form == 'opts':
        kw.update(title='T', axis_equal=False, show_semiaxis=True, show_center=False, fc='r', ec='b', alpha=.5, xlim=(-20., 20.), ylim=(-30., 30.), ls='dashed')
    cov0 = C.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if form == 'old':
            plot_covariance_ellipse(mean, **kw)
        else:
            plot_covariance(mean, **kw)
    if not (C == cov0).all():
        return bad('the covariance of the caller was modified', cov0, C)
    ax = plt.gca()
    got = outlines(ax)
    if len(got) != len(sds):
        return bad('number of ellipses drawn', len(sds), len(got))
    CI = np.linalg.inv(C)
    for o, sd in zip(got, sds):
        d = o - np.array(mean, float)
        r = np.sqrt(np.einsum('ij,jk,ik->i', d, CI, d))
        if not close(r, np.full(len(r), sd), 1e-6):
            return bad('Mahalanobis distance of the points of the ellipse drawn for %s' % SIZES[si][0], sd, [float(r.min()), float(r.max())])
        # all of it: the points surround the mean
        if len(np.unique(np.floor(np.arctan2(*(np.linalg.inv(np.linalg.cholesky(C)).dot(d.T))) / (np.pi / 4)))) < 8:
            return bad('the ellipse is closed', True, False)
    if form == 'opts':
        if ax.get_title() != 'T' or tuple(ax.get_xlim()) != (-20., 20.) or tuple(ax.get_ylim()) != (-30., 30.):
            return bad('title and limits', ('T', (-20., 20.), (-30., 30.)), (ax.get_title(), ax.get_xlim(), ax.get_ylim()))
    else:
        sca = [np.asarray(c.get_offsets(), float) for c in ax.collections]
        if form != 'old' and (len(sca) != 1 or not close(sca[0], np.array([mean], float), 1e-9)):
            return bad('centre mark', mean, sca)
    plt.close('all')
    return None, 'e'


def refuse(case):
    from filterpy.stats import plot_covariance, plot_3d_covariance
    which, = case
    plt = mpl()
    try:
        if which == 'both':
            plot_covariance((0., 0.), np.eye(2), ellipse=(0., 1., 1.))
        elif which == 'neither':
            plot_covariance((0., 0.))
        elif which == 'mean':
            plot_3d_covariance((0., 0.), np.eye(3))
        elif which == 'cov':
            plot_3d_covariance((0., 0., 0.), np.eye(2))
        elif which == 'cov32':
            plot_3d_covariance((0., 0., 0.), np.ones((3, 2)))
        elif which == 'neg':
            with np.errstate(all='ignore'):
                plot_3d_covariance((0., 0., 0.), np.diag([1., 2., -1.]))
    except ValueError:
        return None, which
    finally:
        plt.close('all')
    return bad('inconsistent plot arguments (%s)' % which, 'ValueError', 'accepted')


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for l in ax.lines]


def gauss(case):
    from filterpy.stats import plot_gaussian_pdf, plot_gaussian_cdf, plot_gaussian
    kind, mu, var, form, axf, xlim = case
    plt = mpl()
    fig, (a0, a1) = plt.subplots(1, 2)
    plt.sca(a1)
    kw = {}
    want = a1
    if axf:
        kw['ax'], want = a0, a0
    if xlim is not None:
        kw['xlim'] = xlim
    lab = dict(label='L', xlabel='X', ylabel='Y')
    f = dict(pdf=plot_gaussian_pdf, cdf=plot_gaussian_cdf, old=plot_gaussian)[kind]
    m, v = mu, var
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if form == 'pos':
            r = f(mu, var, **dict(lab, **kw))
        elif form == 'kw':
            r = f(variance=var, mean=mu, **kw)
        elif form == 'std':
            r = f(mu, std=math.sqrt(var), **dict(lab, **kw))
        elif form == 'stdnone':
            r = f(mu, variance=None, std=math.sqrt(var), **kw)
        elif form == 'line':
            r = f(mu, var, mean_line=True, ylim=(-.5, 2.), **kw)
        elif form == 'mean':
            r, v = f(mu, **kw), 1.
        else:
            r, m, v = f(**kw), 0., 1.
    if r is not want:
        return bad('the axes returned are those given or current', True, False)
    other = a1 if want is a0 else a0
    if len(other.lines):
        return bad('nothing is drawn on other axes', 0, len(other.lines))
    ls = lines(want)
    if len(ls) != (2 if form == 'line' else 1):
        return bad('number of lines', 1, len(ls))
    x, y, l = ls[0]
    if form == 'line':
        if not (ls[1][0] == mu).all():
            return bad('mean line', mu, ls[1][0])
        if not close(want.get_ylim(), (-.5, 2.)):
            return bad('ylim', (-.5, 2.), want.get_ylim())
    sd = math.sqrt(v)
    if xlim is None:
        lo, hi = m + sd * float(sc.ndtri(.001)), m + sd * float(sc.ndtri(.999))
    else:
        lo, hi = xlim
    if len(x) < 50 or (np.diff(x) <= 0).any() or np.diff(x).max() > (hi - lo) / 40. or abs(x[0] - lo) > (hi - lo) * 1e-2 or abs(x[-1] - hi) > (hi - lo) * 2e-2:
        return bad('the curve covers its range', (lo, hi), (len(x), x[0], x[-1]))
    if not close(want.get_xlim(), (lo, hi), 1e-6, 1e-6 * (hi - lo)):
        return bad('xlim', (lo, hi), want.get_xlim())
    if kind == 'cdf':
        wy = sc.ndtr((x - m) / sd)
    else:
        wy = np.exp(-.5 * ((x - m) / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
    if not close(y, wy, 1e-9, 1e-14):
        i = int(np.argmax(np.abs(y - wy)))
        return bad('%s curve of N(%g, %g) at x=%g' % (kind, m, v, x[i]), wy[i], y[i])
    if form in ('pos', 'std') and (want.get_xlabel(), want.get_ylabel(), l.get_label()) != ('X', 'Y', 'L'):
        return bad('labels', ('X', 'Y', 'L'), (want.get_xlabel(), want.get_ylabel(), l.get_label()))
    plt.close('all')
    return None, y[::50]


def both(case):
    from filterpy.stats import plot_gaussian_pdf
    plt = mpl()
    try:
        plot_gaussian_pdf(case[0], variance=case[1], std=case[2])
    except ValueError:
        return None, str(case)
    finally:
        plt.close('all')
    return bad('both variance and std given', 'ValueError', 'accepted')


DIST = [[.2, .3, .5], [1.], [0., 0., 1.], [.1] * 10, [.25, 0., .25, .5], [.6, .4]]


def discrete(case):
    from filterpy.stats import plot_discrete_cdf
    ys, xs, axf, arr = case
    plt = mpl()
    fig, (a0, a1) = plt.subplots(1, 2)
    plt.sca(a1)
    want = a0 if axf else a1
    y = np.array(ys) if arr else list(ys)
    x = None if xs is None else [1.5 * i - xs for i in range(len(ys))]
    kw = dict(ax=a0) if axf else {}
    r = plot_discrete_cdf(x, y, xlabel='X', ylabel='Y', label='L', **kw)
    ls = lines(want)
    if r is not want or len(ls) != 1 or len((a1 if axf else a0).lines):
        return bad('one curve on the axes given or current', True, False)
    gx, gy, l = ls[0]
    wx = list(range(len(ys))) if x is None else x
    wy = [math.fsum(ys[:i + 1]) for i in range(len(ys))]
    if not close(gx, wx) or not close(gy, wy, 1e-12):
        return bad('cumulative distribution of %r' % (ys,), (wx, wy), (gx, gy))
    if list(y) != list(ys):
        return bad('the probabilities of the caller were modified', ys, list(y))
    if (want.get_xlabel(), want.get_ylabel(), l.get_label()) != ('X', 'Y', 'L'):
        return bad('labels', ('X', 'Y', 'L'), (want.get_xlabel(), want.get_ylabel(), l.get_label()))
    plt.close('all')
    return None, gy


A3 = np.array([[1., .4, -.2], [0., .8, .3], [.1, 0., 1.5]])
C3 = [np.eye(3), np.diag([9., 1., .25]), np.diag([.25, 4., 9.]), A3.dot(A3.T), A3.T.dot(np.diag([4., .1, 1.])).dot(A3)]


def surf(case):
    from filterpy.stats import plot_3d_covariance
    from mpl_toolkits.mplot3d import Axes3D
    ci, mean, std, form = case
    plt = mpl()
    rec = []
    old = Axes3D.plot_surface
    C = C3[ci].copy()

    def plot_surface(self, X, Y, Z, *a, **k):
        rec.append((self, np.array(X), np.array(Y), np.array(Z)))
        return old(self, X, Y, Z, *a, **k)
    Axes3D.plot_surface = plot_surface
    try:
        mu = np.array(mean, float)
        arg = {'list': list(mean), 'row': mu.reshape(1, 3), 'col': mu.reshape(3, 1)}.get(form, mu.copy())
        kw = {}
        if form == 'ax':
            fig = plt.figure()
            kw['ax'] = fig.add_subplot(121, projection='3d')
            fig.add_subplot(122, projection='3d')
            kw['N'] = 30
        if form == 'opt':
            kw = dict(N=24, title='T', limit_xyz=False, label_xyz=False, color='b', shade=False)
        if std is not None:
            kw['std'] = std
        r = plot_3d_covariance(arg, C.tolist() if form == 'list' else C, **kw)
    finally:
        Axes3D.plot_surface = old
    sd = 1. if std is None else std
    if len(rec) != 1:
        return bad('number of surfaces drawn', 1, len(rec))
    if rec[0][0] is not r or (form == 'ax' and r is not kw['ax']):
        return bad('axes drawn on', True, False)
    d = np.stack([a.ravel() for a in rec[0][1:]]) - mu[:, None]
    m = np.sqrt(np.einsum('ik,ij,jk->k', d, np.linalg.inv(C3[ci]), d))
    if not close(m, np.full(len(m), sd), 1e-7):
        return bad('Mahalanobis distance of the surface points', sd, (m.min(), m.max()))
    w = np.linalg.inv(np.linalg.cholesky(C3[ci])).dot(d) / sd
    for v in itertools.product((-1, 0, 1), repeat=3):
        if any(v):
            v = np.array(v) / np.linalg.norm(v)
            if v.dot(w).max() < .93:
                return bad('the surface is closed (direction %s)' % v, True, False)
    if not (C == C3[ci]).all():
        return bad('the covariance of the caller was modified', C3[ci], C)
    if form != 'opt':
        R = sd * math.sqrt(np.linalg.eigvalsh(C3[ci]).max())
        lim = np.array([r.get_xlim(), r.get_ylim(), r.get_zlim()])
        if not close(lim, np.column_stack([mu - R, mu + R]), 1e-6):
            return bad('axis limits hold the ellipsoid', np.column_stack([mu - R, mu + R]), lim)
        if (r.get_xlabel(), r.get_ylabel(), r.get_zlabel()) != ('X', 'Y', 'Z'):
            return bad('labels', 'XYZ', (r.get_xlabel(), r.get_ylabel(), r.get_zlabel()))
    plt.close('all')
    return None, m


def models(tier):
    th = tier == 'thorough'
    means = [(0., 0.), (3., -2.), (100., .5)]
    out = []
    for ci, c in enumerate(COVS):
        cs = [(m, c, si, f) for m in means for si in range(len(SIZES)) for f in ('array', 'list', 'ellipse', 'opts', 'old')
              if (th or m == means[(si + ci) % 3]) and not (f == 'old' and 'interval' in SIZES[si][0])]
        out.append(GridFn('ellipse-%d' % ci, cs, ellipse))
    out.append(GridFn('refuse', [(w,) for w in ('both', 'neither', 'mean', 'cov', 'cov32', 'neg')], refuse))
    out.append(GridFn('both', [(0., 1., 1.), (2., 4., 2.)], both))
    for kind in ('pdf', 'cdf', 'old'):
        forms = ['pos', 'kw', 'mean', 'none'] + (['std', 'stdnone', 'line'] if kind == 'pdf' else ['line'] if kind == 'old' else [])
        for mu in (0., 2.5, -40., 1e3):
            out.append(GridFn('%s-%g' % (kind, mu), [(kind, mu, v, f, a, x) for v in ((1., .01, 9., 400.) if th else (.25, 9.)) for f in forms for a in (0, 1)
                                                     for x in (None, (-3., 7.), (mu - 2., mu + 5.))], gauss))
    out.append(GridFn('discrete', [(y, x, a, arr) for y in DIST for x in (None, 0., 2.) for a in (0, 1) for arr in (0, 1)], discrete))
    for ci in range(len(C3)):
        out.append(GridFn('surface-%d' % ci, [(ci, m, s, f) for m in ((0., 0., 0.), (5., -1., 2.), (-100., 3., 40.)) for s in ((None, 2., .5) if th else (None, 2.)) for f in ('array', 'list', 'row', 'col', 'ax', 'opt')
                                             if th or f in ('array', 'opt', 'col') or m[0] == 5.], surf))
    return out
