import os
import sys
import itertools
import threading
import numpy as np
from mc import zoo, engine, rng
from mc.refs import A, Sys
from mc.sp import NL, Angle
from mc.enkf import EN
from props import p31

ID = 'P43'
LEVEL = 'model_checking'
BOUND = ('a history (construction, predictions, updates, reads of the likelihood) of every filter class, and every batch function, smoother, point scheme and numeric function, run under a controlled scheduler that can switch at every executed line of the '
         'library and at every call it makes (user functions included): (1) at every single such moment a complete history of every other class and of another object of the same class is executed, as another thread or a function of the user would; '
         '(2) schedules of two threads with 2 preemptions (the first thread stopped, then the second one stopped, then each continued to its end) for pairs of objects of every class, on a regular grid of pairs of moments (at most 500 pairs per class in quick, 6000 in thorough; all pairs when the histories are short enough); '
         'every numeric attribute of all objects afterwards equals that of the same history run alone; dim_x 1-3, dim_z 1-2')
ASSUMPTIONS = ['switches happen between lines and at calls (numpy\'s own operations are atomic)', 'each filter is used by one thread at a time; resampling and other functions of the global random generator are excluded, their draws are common to all threads by design']
FILES = {}


def lib(name):
    r = FILES.get(name)
    if r is None:
        import filterpy
        root = os.path.dirname(os.path.abspath(filterpy.__file__)) + os.sep
        q = os.path.abspath(name)
        r = FILES[name] = q.startswith(root) and os.sep + 'tests' + os.sep not in q
    return r


def tracer(hook):
    """calls hook() at every line of the library and at every call from it"""
    def local(frame, event, arg):
        if event == 'line':
            hook()
        return local

    def glob(frame, event, arg):
        if lib(frame.f_code.co_filename):
            hook()
            return local
        b = frame.f_back
        if b is not None and lib(b.f_code.co_filename):
            hook()
        return None
    return glob


def traced(run, hook):
    sys.settrace(tracer(hook))
    try:
        return run()
    finally:
        sys.settrace(None)


class Task(object):
    """a history of a filter; run() does everything from the construction on and returns what can be seen afterwards"""

    def __init__(self, name, m, word):
        self.name, self.m, self.word = name, m, word
        self.alone = None

    def run(self):
        m = self.m
        c = m.fresh()
        for op in self.word:
            m.do(c, op)
        if getattr(c, 'o', None) is None:
            return {k: A(v).copy() for k, v in zoo.estimate(m.entry, c).items()}
        for n in ('log_likelihood', 'mahalanobis'):
            getattr(c.o, n, None)
        return p31.look(c.o)

    def prepare(self):
        if self.alone is None:
            self.alone = self.run()
            self.n = 0

            def count():
                self.n += 1
            traced(self.run, count)
        return self

    def diff(self, v):
        w = self.alone
        if isinstance(v, Exception):
            return 'raises %s: %s' % (type(v).__name__, v)
        for k in w:
            if k not in v:
                return '%s is missing' % k
            a, b = A(v[k]), A(w[k])
            if a.shape != b.shape or not (np.abs(a - b) <= 1e-13 + 1e-12 * np.abs(b)).all():
                return '%s is %r, alone it is %r' % (k, a.tolist(), b.tolist())
        return None


class Fn(Task):
    def __init__(self, name, f):
        self.name, self.f, self.alone = name, f, None

    def run(self):
        return {str(i): np.array(v, dtype=float) for i, v in enumerate(self.f())}


def safe(f):
    try:
        return f()
    except engine.Bad:
        raise
    except Exception as e:
        return e


class Nested(object):
    """case k: the other tasks are executed when the first one is at its k-th switching point"""

    def __init__(self, a, others):
        self.a, self.others = a, others

    def __call__(self, k):
        a, n, res = self.a, [0], []

        def hook():
            n[0] += 1
            if n[0] == k:
                s = rng.current()
                for b in self.others:
                    rng.install(None)
                    res.append((b, safe(b.run)))
                rng.install(s)
        r = safe(lambda: traced(a.run, hook))
        d = a.diff(r)
        if d:
            return ('%s interrupted at point %d by other filters: %s' % (a.name, k, d), 'the same as alone', None), None
        for b, v in res:
            d = b.diff(v)
            if d:
                return ('%s run while %s is at point %d: %s' % (b.name, a.name, k, d), 'the same as alone', None), None
        if len(res) != len(self.others):
            return None, 'end'           # fewer points than counted
        return None, '%s %d' % (a.name, k)


class Threads(object):
    """case (k, l): thread 1 runs up to its k-th point, thread 2 up to its l-th, then thread 1 to its end and thread 2 to its end"""

    def __init__(self, a, b):
        self.t = (a, b)

    def __call__(self, case):
        sem = [threading.Semaphore(0), threading.Semaphore(0)]
        done = [False, False]
        res = [None, None]
        err = []

        def switch(i):
            if not done[1 - i]:
                sem[1 - i].release()
                if not sem[i].acquire(timeout=60):
                    err.append('schedule stuck')

        def body(i):
            if not sem[i].acquire(timeout=60):
                err.append('schedule stuck')
            n = [0]

            def hook():
                n[0] += 1
                if n[0] == case[i]:
                    switch(i)
            np.seterr(all='ignore')
            rng.install(None)
            res[i] = safe(lambda: traced(self.t[i].run, hook))
            done[i] = True
            sem[1 - i].release()
        th = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
        for t in th:
            t.start()
        sem[0].release()
        for t in th:
            t.join()
        if err:
            return (err[0], None, None), None
        for i in (0, 1):
            d = self.t[i].diff(res[i])
            if d:
                return ('%s in thread %d, next to %s: %s' % (self.t[i].name, i + 1, self.t[1 - i].name, d), 'the same as alone', None), None
        return None, '%s %r' % (self.t[0].name, case)


# ------------------------------------------------------------- batch and other functions

def fns(v):
    from filterpy import kalman, common, stats, discrete_bayes, leastsq, gh
    from filterpy.common import Saver
    s = Sys(2, 1 + v, nu=1, var=43 + v)
    zs = [s.z[k] for k in (v, 1, 2)]

    def kf():
        o = kalman.KalmanFilter(s.nx, s.nz)
        o.x, o.P, o.F, o.Q, o.H, o.R = s.x0.reshape(-1, 1), s.P0.copy(), s.F[0], s.Q[0], s.H[0], s.R[0]
        m, C, mp, Cp = o.batch_filter([z.reshape(-1, 1) for z in zs])
        r = o.rts_smoother(m, C)
        return (m, C, mp, Cp) + tuple(r)

    def proc():
        m, C, mp, Cp = kalman.batch_filter(s.x0, s.P0, zs, [s.F[0]] * 3, [s.Q[0]] * 3, [s.H[0]] * 3, [s.R[0]] * 3)
        return (m, C, mp, Cp) + tuple(kalman.rts_smoother(m, C, [s.F[0]] * 3, [s.Q[0]] * 3))

    def ukf():
        p = NL(s)
        o = kalman.UnscentedKalmanFilter(s.nx, s.nz, .5, hx=p.h, fx=p.f, points=kalman.MerweScaledSigmaPoints(s.nx, .5, 2., 1.))
        o.x, o.P, o.Q, o.R = s.x0.copy(), s.P0.copy(), s.Q[0], s.R[0]
        m, C = o.batch_filter(zs)
        return (m, C) + tuple(o.rts_smoother(m, C))

    def points():
        out = []
        for P in (kalman.MerweScaledSigmaPoints(s.nx + v, .5, 2., 1.), kalman.JulierSigmaPoints(s.nx + v, 1.), kalman.SimplexSigmaPoints(s.nx + v)):
            S = P.sigma_points(np.arange(s.nx + v) * 1.5, np.eye(s.nx + v) * (2. + v))
            out += [S, P.Wm, P.Wc] + list(kalman.unscented_transform(S, P.Wm, P.Wc, np.eye(s.nx + v) * .3))
        S = kalman.spherical_radial_sigmas(s.x0.reshape(-1, 1), s.P0)
        return out + [S] + list(kalman.ckf_transform(S, s.Q[0]))

    def num():
        out = [common.Q_discrete_white_noise(2 + v, .3 + v, 2.), common.Q_continuous_white_noise(2 + v, .3 + v, 2.), common.kinematic_state_transition(1 + v, .5)]
        out += list(common.van_loan_discretization(s.F[0], s.B[0], .1 + v))
        out += list(common.linear_ode_discretation(s.F[0], s.B[0], np.eye(1), .2 + v))
        out += [common.kinematic_kf(2, 1 + v, .5).F, common.inv_diagonal(np.diag([2., 3. + v])), common.outer_product_sum(s.F[0], s.F[1]), common.runge_kutta4(1., 2., .1 + v, lambda y, x: y - x)]
        return out

    def st():
        x, P = stats.multivariate_multiply(s.x0, s.P0, s.x1, s.P1)
        return [x, P, stats.mahalanobis(s.x0, s.x1, s.P0), stats.logpdf(s.x0, s.x1, s.P0), stats.gaussian(s.x0[0], s.x1[0], s.P0[0, 0]), stats.mul(1., 2. + v, 3., 4.), stats.mul_pdf(1., 2. + v, 3., 4.), stats.add(1., 2. + v, 3., 4.),
                stats.norm_cdf((-1., 1. + v), 0.5), stats.NEES(A([s.x0, s.x1]), A([s.x1, s.x0]), [s.P0, s.P1]), stats.covariance_ellipse(s.P0), stats.likelihood(zs[0], s.x0, s.P0, s.H[0], s.R[0]),
                stats.log_likelihood(zs[0], s.x0, s.P0, s.H[0], s.R[0])]

    def bayes():
        b = np.arange(1., 6. + v)
        p = discrete_bayes.normalize(b)
        q = discrete_bayes.predict(p, 1 + v, np.array([.1, .8, .1]))
        return [q, discrete_bayes.update(np.arange(5. + v), q)]

    def lsq():
        out = []
        for o in (0, 1, 2):
            f = leastsq.LeastSquaresFilter(.5 + v, o, .3)
            for z in (1., 3., 2., 7.):
                f.update(z)
            out += [f.x.copy(), f.errors()[0], f.errors()[1]]
        f = gh.GHFilter(0., 1., .5 + v, .7, .2)
        out.append(f.batch_filter([1., 2., 4.]))
        f = gh.GHKFilter(0., 1., .5, .5 + v, .7, .2, .1)
        return out + [f.update(2.)[0], gh.critical_damping_parameters(.8), gh.least_squares_parameters(3 + v)]

    def saver():
        o = kalman.KalmanFilter(s.nx, s.nz)
        o.F, o.H = s.F[0], s.H[0]
        sv = Saver(o)
        for z in zs:
            o.predict()
            o.update(z.reshape(-1, 1))
            sv.save()
        sv.to_array()
        return [sv.x, sv.P, sv.K, sv.log_likelihood]
    return [Fn('%s-%d' % (f.__name__, v), f) for f in (kf, proc, ukf, points, num, st, bayes, lsq, saver)]


def histories(th):
    """(kind, two tasks with different data) of every class"""
    out = []
    old = zoo.others()
    for (ea, eb) in zip(zoo.entries(shapes=((2, 1), (2, 2))), zoo.entries(shapes=((2, 1), (2, 2)), var=43)):
        if not th and ea.name.endswith('-1d') and ea.kind != 'proc':
            continue
        out.append((ea, eb))
    out += [(e, e) for e in old]
    r = []
    for ea, eb in out:
        ts = []
        for e, k in ((ea, 0), (eb, 1)):
            e.m.entry = e
            ts.append(Task('%s#%d' % (e.name, k), e.m, p31.word(e.m, k, 4 if th else 2)))
        r.append((ea.kind, ts[0], ts[1]))
    r += [('fn', a, b) for a, b in zip(fns(0), fns(1))]
    for _, a, b in r:
        a.prepare()
        b.prepare()
    return r


def models(tier):
    th = tier == 'thorough'
    hs = histories(th)
    out = []
    bs = [b for _, _, b in hs]
    for kind, a, b in hs:
        if not th and '-2x2' in a.name:
            continue                     # these are interrupting tasks only
        pts = list(range(1, a.n + 1))
        for j in range(0, len(pts), 60):
            out.append(engine.GridFn('at-%s-%d' % (a.name, j), pts[j:j + 60], Nested(a, [b] + [q for q in bs if q is not b])))
    for kind, a, b in hs:
        want = 6000. if th else 500.
        step = max(1, int(np.ceil((a.n * b.n / want) ** .5)))
        for p, q in ((a, b),) if not th else ((a, b), (b, a)):
            ks, ls = list(range(1, p.n + 1, step)), list(range(1, q.n + 1, step))
            out.append(engine.GridFn('two-%s-%s' % (p.name, q.name), list(itertools.product(ks, ls)), Threads(p, q)))
    return out
