"""
The environment seam: numpy's random functions are replaced (before filterpy is
imported) by dispatchers.  With no script installed they forward to the
original.  With a script installed every answer is chosen by the explorer.
"""
import threading
import numpy as np
import numpy.random as npr

_orig = dict((n, getattr(npr, n)) for n in
             ('random', 'random_sample', 'rand', 'uniform', 'multivariate_normal', 'randn',
              'standard_normal', 'normal', 'seed'))


class Script(object):
    """`uniforms`: list of answers (cycled) for uniform draws in [0, 1);
    `normals`: function (draw index, component) -> standard normal answer"""

    def __init__(self, uniforms=None, normals=None):
        self.u = uniforms
        self.n = normals
        self.ui = 0
        self.ni = 0
        self.log = []

    def uni(self, size):
        if size is None:
            v = self.u[self.ui % len(self.u)]
            self.ui += 1
            return float(v)
        n = int(np.prod(size))
        out = np.array([self.u[(self.ui + i) % len(self.u)] for i in range(n)], dtype=float)
        self.ui += n
        return out.reshape(size)

    def mvn(self, mean, cov, size):
        mean = np.atleast_1d(np.asarray(mean, dtype=float))
        cov = np.atleast_2d(np.asarray(cov, dtype=float))
        if size is None:
            shp = ()
        elif np.isscalar(size):
            shp = (int(size),)
        else:
            shp = tuple(size)
        k = int(np.prod(shp)) if shp else 1
        d = len(mean)
        L = np.linalg.cholesky(cov + 1e-300 * np.eye(d)) if cov.any() else np.zeros((d, d))
        out = np.zeros((k, d))
        for i in range(k):
            e = np.array([self.n(self.ni, j) for j in range(d)], dtype=float)
            self.ni += 1
            out[i] = mean + L.dot(e)
            self.log.append((mean.copy(), cov.copy(), out[i].copy()))
        return out.reshape(shp + (d,))


_LOCAL = threading.local()


def current():
    return getattr(_LOCAL, 's', None)


def install(script):
    """for this thread"""
    _LOCAL.s = script


def _uni(name):
    def f(*a, **k):
        s = current()
        if s is None or s.u is None:
            return _orig[name](*a, **k)
        if name == 'rand':
            return s.uni(a if a else None)
        if name == 'uniform':
            lo = a[0] if a else k.get('low', 0.)
            hi = a[1] if len(a) > 1 else k.get('high', 1.)
            size = a[2] if len(a) > 2 else k.get('size')
            return lo + (hi - lo) * s.uni(size)
        size = a[0] if a else k.get('size')
        return s.uni(size)
    f.__name__ = name
    return f


def _mvn(mean, cov, size=None, *a, **k):
    s = current()
    if s is None or s.n is None:
        return _orig['multivariate_normal'](mean, cov, size, *a, **k)
    return s.mvn(mean, cov, size)


def _std(name):
    def f(*a, **k):
        s = current()
        if s is None or s.n is None:
            return _orig[name](*a, **k)
        if name == 'randn':
            shp = a
        elif name == 'normal':
            size = a[2] if len(a) > 2 else k.get('size')
            shp = () if size is None else tuple(np.atleast_1d(size))
        else:
            size = a[0] if a else k.get('size')
            shp = () if size is None else tuple(np.atleast_1d(size))
        n = int(np.prod(shp)) if shp else 1
        if len(shp) >= 1:
            d = shp[-1]
            out = np.array([[s.n(s.ni + i, j) for j in range(d)] for i in range(n // d)]).reshape(shp)
            s.ni += n // d
        else:
            out = s.n(s.ni, 0)
            s.ni += 1
        if name == 'normal':
            loc = a[0] if a else k.get('loc', 0.)
            sc = a[1] if len(a) > 1 else k.get('scale', 1.)
            return loc + sc * out
        return out
    return f


for _n in ('random', 'random_sample', 'rand', 'uniform'):
    setattr(npr, _n, _uni(_n))
npr.multivariate_normal = _mvn
for _n in ('randn', 'standard_normal', 'normal'):
    setattr(npr, _n, _std(_n))
