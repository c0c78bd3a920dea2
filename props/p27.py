import itertools
import numpy as np
from mc import engine
from mc.engine import GridFn, close

ID = 'P27'
LEVEL = 'model_checking'
BOUND = ('every sequence of predictions (offsets, kernels, modes) and updates up to depth 3-4 (quick) / 5 (thorough) on beliefs of length 3-7; one-step grid over all unit beliefs and generic beliefs of length 1-7, '
         'offsets -9..9, odd kernels of length 1-7, both boundary modes and several fill values')
ASSUMPTIONS = ['float beliefs; kernel length is odd; numeric agreement within 1e-9']


def ref_predict(p, off, k, mode, cval):
    n, c = len(p), len(k) // 2
    out = np.zeros(n)
    if mode == 'wrap':
        for i in range(n):
            for j in range(len(k)):
                out[(i + off + j - c) % n] += p[i] * k[j]
        return out
    for i in range(n):
        for j in range(len(k)):
            m = i - (j - c)                    # cell of the shifted belief
            v = p[m - off] if 0 <= m < n and 0 <= m - off < n else cval
            out[i] += k[j] * v
    return out


KER = {1: [1.], 2: [.1, .7, .2], 3: [.05, .1, .5, .25, .1], 4: [.2, .2, .3, .05, .05, .1, .1], 5: [0., .3, .7], 6: [.5], 7: [2.], 8: [.2, .5, .1], 9: [0.], 10: [0., 1., 0.], 11: [1., 2., 1.]}
TOT = dict((k, sum(v)) for k, v in KER.items())


def one(case):
    from filterpy.discrete_bayes import predict
    n, b, off, k, mode, cval, form = case
    p = np.eye(n)[b] if b < n else (np.arange(n) + 1.) ** 2 / (sum((np.arange(n) + 1.) ** 2) if b == n else 1.) if b < n + 2 else np.zeros(n)
    ker = np.array(KER[k])
    p0, k0 = p.copy(), ker.copy()
    kw = {}
    if mode != 'wrap':
        kw = dict(mode=mode, cval=cval)
    a = p if form == 'arr' else p.tolist()
    kk = ker if form == 'arr' else ker.tolist()
    got = predict(a, off, kk, **kw)
    want = ref_predict(p0, off, k0, mode, cval)
    if np.shape(got) != (n,) or not close(got, want, 1e-9, 1e-9):
        return ('predict%r' % (case,), want, got), None
    if mode == 'wrap' and abs(np.sum(got) - p0.sum() * TOT[k]) > 1e-9:
        return ('predict%r does not preserve total probability' % (case,), 1., np.sum(got)), None
    if not ((p == p0).all() and (ker == k0).all()):
        return ('predict modified its input', p0, p), None
    return None, want


def norm(case):
    from filterpy.discrete_bayes import normalize, update
    v = np.array(case, float)
    a = v.copy()
    r = normalize(a)
    w = v / v.sum()
    if not close(r, w, 1e-12, 1e-15):
        return ('normalize%r' % (case,), w, r), None
    if not close(a, w, 1e-12, 1e-15):
        return ('normalize is documented to work in place', w, a), None
    return None, w


class DB(engine.Model):
    def __init__(self, name, n, ops, depth, mode, cval=0., lasso=None):
        self.name, self.n, self.ops, self.depth, self.mode, self.cval, self.lasso = name, n, ops, depth, mode, cval, lasso
        r = np.random.RandomState(n)
        self.L = [np.round(r.uniform(.1, 1, n), 2), np.eye(n)[0] * .9 + .1, np.round(r.uniform(0, 1, n), 1) + .05,
                  np.round(r.uniform(.1, 3, n), 2)]
        b = np.round(r.uniform(.1, 1, n), 2)
        self.b0 = b / b.sum()

    def init(self):
        return self.b0

    def step(self, s, op):
        if op[0] == 'p':
            t = ref_predict(s, op[1], KER[op[2]], self.mode, self.cval)
            e = {'b!': t}
            if self.mode == 'wrap':
                e['sum'] = s.sum() * TOT[op[2]]
        else:
            t = s * self.L[op[1]]
            if t.sum() < 1e-9:
                return None            # the belief was shifted out: nothing to normalize
            t = t / t.sum()
            e = {'b!': t, 'sum': 1.}
        return t, e

    def fresh(self):
        c = engine.Ctx()
        c.b = c.give(self.b0.copy(), 'prior')
        return c

    def do(self, c, op):
        from filterpy.discrete_bayes import predict, update
        if op[0] == 'p':
            k = c.give(np.array(KER[op[2]]), 'kernel')
            c.b = predict(c.b, op[1], k) if self.mode == 'wrap' else predict(c.b, op[1], k, self.mode, self.cval)
        else:
            c.b = update(c.give(self.L[op[1]].copy(), 'likelihood'), c.b)
        c.hold(c.b, 'belief')
        return {'b!': c.b, 'sum': float(np.sum(c.b))}


def models(tier):
    th = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4, 5, 7):
        out.append(GridFn('predict-%d' % n, [(n, b, off, k, mode, cv, f) for b in range(n + 3) for off in (list(range(-9, 10)) + [-23, 100]) for k in KER
                                             for mode, cv in (('wrap', 0.), ('constant', 0.), ('constant', .3), ('constant', 1.))
                                             for f in ('arr', 'list')], one))
    out.append(GridFn('normalize', list(itertools.product([.1, 1., 3.], [0., .5, 2.], [.25, 7.])) + [(2.,), (1., 1.)], norm))
    d = 5 if th else 4
    for n in (3, 5, 7):
        ops = [('p', 1, 2), ('p', -2, 3), ('p', n + 1, 5), ('p', 0, 1), ('p', 1, 6), ('u', 0), ('u', 1), ('u', 2), ('u', 3)]
        for mode, cv in (('wrap', 0.), ('constant', 0.), ('constant', .2)):
            m = DB('seq-%d-%s%g' % (n, mode, cv), n, ops, d, mode, cv, lasso=(2, 30) if mode == 'wrap' else None)
            m.atol = 1e-9
            out.append(m)
    return out
