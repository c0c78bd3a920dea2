"""
Reference models.  Deliberately boring, pure functions on flat float arrays,
sharing no code (and, where possible, no formula) with filterpy.
"""
import math
import itertools
import numpy as np


def A(v):
    return np.array(v, dtype=float)


SZ = ('s', 'z')         # scalar override: the system's scalar, or exactly zero


def scal(v, k):
    return v if k == 's' else 0.


def vec(v):
    return A(v).reshape(-1)


def mat(v, r, c):
    return A(v).reshape(r, c)


def sym(P):
    return 0.5 * (P + P.T)


def predict(x, P, F, Q, Bu=None, alpha=1.):
    x2 = F.dot(x)
    if Bu is not None:
        x2 = x2 + Bu
    return x2, sym(alpha ** 2 * F.dot(P).dot(F.T) + Q)


def update(x, P, z, H, R, M=None):
    """conditioning of the joint Gaussian of (x, z); M = cov(process, measurement noise)"""
    n, m = len(x), len(z)
    C = P.dot(H.T)
    S = H.dot(C) + R
    if M is not None:
        C = C + M
        S = S + H.dot(M) + M.T.dot(H.T)
    y = z - H.dot(x)
    K = np.linalg.solve(S.T, C.T).T
    x2 = x + K.dot(y)
    P2 = sym(P - C.dot(np.linalg.solve(S, C.T)))
    return x2, P2, y, S, K


def gauss_logpdf(y, S):
    y = vec(y)
    S = np.atleast_2d(A(S))
    s, ld = np.linalg.slogdet(S)
    return -0.5 * (y.dot(np.linalg.solve(S, y)) + ld + len(y) * math.log(2 * math.pi))


def maha(y, S):
    y = vec(y)
    return math.sqrt(max(0., y.dot(np.linalg.solve(np.atleast_2d(A(S)), y))))


def psd(P, tol=1e-9):
    P = A(P)
    s = max(1e-300, np.abs(P).max())
    if not np.isfinite(P).all():
        return 'not finite'
    if np.abs(P - P.T).max() > tol * s:
        return 'not symmetric'
    if np.linalg.eigvalsh(sym(P)).min() < -tol * s:
        return 'not positive semi-definite'
    return None


def smooth_joint(x0, P0, Fs, Qs, obs, Bus=None):
    """exact posterior means/covariances of x_0..x_n-1 given *all* observations,
    by conditioning the joint Gaussian over the whole trajectory.
    x_k+1 = Fs[k+1] x_k + w, w ~ Qs[k+1]; obs = list over k of (z, H, R) or None.
    (x0, P0) is the prior of x_0."""
    n = len(obs)
    d = len(x0)
    # joint prior
    mean = np.zeros(n * d)
    T = np.zeros((n * d, n * d))
    W = np.zeros((n * d, n * d))
    for k in range(n):
        mean[k * d:(k + 1) * d] = x0 if k == 0 else Fs[k].dot(mean[(k - 1) * d:k * d]) + (
            0 if Bus is None else Bus[k])
        for j in range(k + 1):
            M = np.eye(d)
            for i in range(j + 1, k + 1):
                M = Fs[i].dot(M)
            T[k * d:(k + 1) * d, j * d:(j + 1) * d] = M
        W[k * d:(k + 1) * d, k * d:(k + 1) * d] = P0 if k == 0 else Qs[k]
    C = T.dot(W).dot(T.T)
    rows, zz, RR = [], [], []
    for k, o in enumerate(obs):
        if o is None:
            continue
        z, H, R = o
        h = np.zeros((H.shape[0], n * d))
        h[:, k * d:(k + 1) * d] = H
        rows.append(h)
        zz.append(z)
        RR.append(R)
    if rows:
        H = np.vstack(rows)
        z = np.concatenate(zz)
        m = len(z)
        R = np.zeros((m, m))
        i = 0
        for r in RR:
            R[i:i + len(r), i:i + len(r)] = r
            i += len(r)
        mean, C, _, _, _ = update(mean, C, z, H, R)
    xs = [mean[k * d:(k + 1) * d] for k in range(n)]
    Ps = [C[k * d:(k + 1) * d, k * d:(k + 1) * d] for k in range(n)]
    return xs, Ps


# ------------------------------------------------------------------ systems

class Sys(object):
    """a small linear-Gaussian system with generic (non symmetric, non diagonal,
    mutually distinct) matrices and a couple of alternatives for each of them"""

    def __init__(self, nx, nz, nu=1, var=0, scale=1.):
        r = np.random.RandomState(1000 * nx + 100 * nz + 10 * nu + var)
        f = lambda *s: np.round(r.uniform(-1, 1, s), 2)
        self.nx, self.nz, self.nu = nx, nz, nu
        self.scale = scale

        def spd(n, lo):
            a = f(n, n)
            return np.round(a.dot(a.T) + lo * np.eye(n), 3)
        self.x0 = (f(nx) + 0.5) * scale
        self.x1 = (f(nx) * 2) * scale
        self.P0 = spd(nx, 1.) * scale ** 2
        self.P1 = spd(nx, .3) * scale ** 2
        self.F = [np.round(np.eye(nx) + 0.4 * f(nx, nx), 3) for _ in range(4)]
        self.Q = [spd(nx, .2) * scale ** 2 * (0.4 + .3 * k) for k in range(4)]
        self.H = [f(nz, nx) + np.eye(nz, nx) for _ in range(4)]
        self.R = [spd(nz, .5) * scale ** 2 * (1 + .5 * k) for k in range(4)]
        self.B = [f(nx, nu) + 0.3 for _ in range(4)]
        self.u = [f(nu) * scale for _ in range(4)]
        self.z = [f(nz) * 3 * scale for _ in range(8)]
        self.M = 0.1 * f(nx, nz) * scale ** 2
        self.sq = 0.7 * scale ** 2
        self.sr = 1.3 * scale ** 2


def far(s, k=1e6):
    """the same system with a state (and measurements) far from the origin compared with the uncertainty"""
    s.x0, s.x1 = k * s.x0, k * s.x1
    s.z = [k * A(z) for z in s.z]
    return s
