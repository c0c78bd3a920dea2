import itertools
import random
import numpy as np
import scipy.special as sc
from mc.engine import GridFn
from mc import rng

ID = 'P32'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('every answer of the random sources on a grid of equally probable values (400 x 400 quick, 1000 x 1000 thorough; every ordered pair of draws on a 12 x 12 grid for consecutive calls, and the joint distribution of two consecutive calls), degrees of freedom .5-50, '
         '4 means, 4 standard deviations, positional, keyword and default arguments')
ASSUMPTIONS = ["the generator draws from the functions of Python's random module or numpy.random, whose answers are chosen by the explorer through their inverse distribution functions",
               'distribution functions are compared within 1.5/m of an m x m grid of draws']

ND = sc.ndtri
PPF = {}


def q(kind, p, u):
    """inverse distribution function number `kind` at u (cached)"""
    k = (kind, p, u)
    if k not in PPF:
        if kind == 'n':
            PPF[k] = float(ND(u))
        elif kind == 'gamma':
            PPF[k] = float(sc.gammaincinv(p, u))
        elif kind == 't':
            PPF[k] = float(sc.stdtrit(p, u))
        elif kind == 'beta':
            PPF[k] = float(sc.betaincinv(p[0], p[1], u))
        else:
            PPF[k] = u
    return PPF[k]


class Source(object):
    def __init__(self):
        self.us, self.i = (), 0

    def set(self, us):
        self.us, self.i = us, 0

    def nxt(self):
        u = self.us[self.i] if self.i < len(self.us) else .5
        self.i += 1
        return u


S = Source()
E = -1.


def seams():
    def sized(f):
        def g(*a, **k):
            size = k.pop('size', None)
            r = f(*a, **k)
            if size is None:
                return r
            n = int(np.prod(size))
            return np.array([r] + [f(*a, **k) for _ in range(n - 1)]).reshape(size)
        return g
    normal = lambda mu=0., sigma=1.: mu + sigma * q('n', None, S.nxt())
    npnormal = lambda loc=0., scale=1.: loc + scale * q('n', None, S.nxt())
    gam = lambda alpha, beta: beta * q('gamma', float(alpha), S.nxt())
    npgam = lambda shape, scale=1.: scale * q('gamma', float(shape), S.nxt())
    uni = lambda a, b: a + (b - a) * S.nxt()
    py = dict(gauss=normal, normalvariate=normal, gammavariate=gam, random=lambda: S.nxt(), uniform=uni,
              expovariate=lambda lambd=1.: q('gamma', 1., S.nxt()) / lambd,
              betavariate=lambda a, b: q('beta', (float(a), float(b)), S.nxt()))
    nps = dict(normal=sized(npnormal), standard_normal=sized(lambda: q('n', None, S.nxt())), gamma=sized(npgam),
               standard_gamma=sized(lambda shape: npgam(shape)), chisquare=sized(lambda df: 2. * q('gamma', df / 2., S.nxt())),
               standard_t=sized(lambda df: q('t', float(df), S.nxt())), random=sized(lambda: S.nxt()), random_sample=sized(lambda: S.nxt()),
               uniform=sized(lambda low=0., high=1.: low + (high - low) * S.nxt()), standard_exponential=sized(lambda: q('gamma', 1., S.nxt())),
               exponential=sized(lambda scale=1.: scale * q('gamma', 1., S.nxt())),
               randn=lambda *a: q('n', None, S.nxt()) if not a else np.array([q('n', None, S.nxt()) for _ in range(int(np.prod(a)))]).reshape(a),
               rand=lambda *a: S.nxt() if not a else np.array([S.nxt() for _ in range(int(np.prod(a)))]).reshape(a))
    return py, nps


class Installed(object):
    """the random sources answered by the explorer, also where filterpy.stats imported them by name"""

    def __enter__(self):
        import filterpy.stats.stats as m
        py, nps = seams()
        self.old = []
        for mod, d in ((random, py), (np.random, nps)):
            for n, f in d.items():
                o = getattr(mod, n)
                self.old.append((mod, n, o))
                for g, v in list(vars(m).items()):
                    if v is o:
                        self.old.append((m, g, o))
                        setattr(m, g, f)
                setattr(mod, n, f)

    def __exit__(self, *a):
        for mod, n, o in reversed(self.old):
            setattr(mod, n, o)


def ndraws(df):
    """how many draws one variate takes; None if it varies or there are none"""
    from filterpy.stats import rand_student_t
    ks = set()
    for u in (.1, .37, .5, .8, .93):
        S.set((u,) * 64)
        rand_student_t(df)
        ks.add(S.i)
    return ks.pop() if len(ks) == 1 and ks != {0} else None


def law(case):
    from filterpy.stats import rand_student_t
    df, mu, std, form, m = case
    with Installed():
        k = ndraws(df)
        if k is None or k > 3:
            return None, 'undecided'
        M = {1: m * m // 10, 2: m, 3: 60}[k]
        g = [(i + .5) / M for i in range(M)]
        out = []
        for us in itertools.product(g, repeat=k):
            S.set(us)
            if form == 'pos':
                out.append(rand_student_t(df, mu, std))
            elif form == 'kw':
                out.append(rand_student_t(std=std, df=df, mu=mu))
            elif form == 'mu':
                out.append(rand_student_t(df, mu=mu))
            else:
                out.append(rand_student_t(df))
    out = np.sort(np.array(out, float))
    if not np.isfinite(out).all():
        return ('rand_student_t%r finite' % (case,), True, False), None
    if form in ('mu', 'def'):
        std = 1.
    if form == 'def':
        mu = 0.
    ts = sc.stdtrit(df, (np.arange(199) + 1.) / 200)
    got = np.searchsorted(out, mu + std * ts + 1e-12) / float(len(out))
    want = (np.arange(199) + 1.) / 200
    i = int(np.argmax(np.abs(got - want)))
    if abs(got[i] - want[i]) > (1.5 / M):
        return ('rand_student_t%r: P(x <= %g)' % (case[:4], mu + std * ts[i]), want[i], got[i]), None
    return None, [df, mu, std] + list(np.round(got, 6))


def again(case):
    """consecutive calls are independent: each depends on its own draws only"""
    from filterpy.stats import rand_student_t
    df, m = case
    with Installed():
        k = ndraws(df)
        if k is None or k > 2:
            return None, 'undecided'
        g = [(i + .5) / m for i in range(m)]
        T = list(itertools.product(g, repeat=k))
        one = {}
        for us in T:
            S.set(us)
            one[us] = rand_student_t(df, 1., 2.)
        for a in T:
            for b in T:
                S.set(a + b)
                x, y = rand_student_t(df, 1., 2.), rand_student_t(df, 1., 2.)
                if x != one[a] or y != one[b]:
                    return ('two consecutive variates, draws %r' % ((a, b),), (one[a], one[b]), (x, y)), None
    return None, list(one.values())


def joint(case):
    """consecutive variates are independent whatever state is kept between calls: joint distribution over all draws of a pair of calls"""
    from filterpy.stats import rand_student_t
    df, off, m = case
    with Installed():
        used = 0
        for u in (.1, .37, .5, .8, .93, .2):
            S.set((u,) * 64)
            rand_student_t(df), rand_student_t(df)
            used = max(used, S.i)
        if used > 4:
            return None, 'undecided'
        g = [(i + .5) / m for i in range(m)]
        S.set((.5,) * 64)
        for _ in range(off):
            rand_student_t(df)
        X, Y = [], []
        for us in itertools.product(g, repeat=used):
            S.set(us)
            X.append(rand_student_t(df))
            Y.append(rand_student_t(df))
    X, Y = np.array(X), np.array(Y)
    for f, n in ((np.abs, 'sizes'), (np.array, 'values')):
        x, y = f(X), f(Y)
        for p in (.25, .5, .75):
            for r in (.25, .5, .75):
                a, b = x <= np.quantile(x, p), y <= np.quantile(y, r)
                if abs((a & b).mean() - a.mean() * b.mean()) > .02:
                    return ('the %s of two consecutive variates are independent: joint probability of the lower %g and %g quantiles' % (n, p, r), a.mean() * b.mean(), (a & b).mean()), None
    return None, [df, off, used]


def models(tier):
    m = 1000 if tier == 'thorough' else 400
    dfs = [.5, 1, 2, 3, 4, 7, 10, 30, 50., 2.5]
    out = [GridFn('law-df%g' % df, [(df, mu, sd, 'pos', m) for mu, sd in ((0., 1.), (3., 2.), (-7.5, .2), (100., 5.))] +
                  [(df, -1., 3., 'kw', m), (df, 2., None, 'mu', m), (df, None, None, 'def', m)], law) for df in dfs]
    out.append(GridFn('consecutive', [(df, 12) for df in (1, 3, 10)], again))
    out.append(GridFn('joint', [(df, off, 12) for df in (1, 2, 3) for off in (0, 1)], joint))
    return out
