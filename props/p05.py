import itertools
import numpy as np
from mc import engine, refs, lin, sp
from mc.refs import A, Sys
from props.p04 import Err, need, wrap, seqs, part, reference, step_mats

ID = 'P05'
LEVEL = 'model_checking'
BOUND = ('every measurement sequence over {z0, z1, missing} of length 1-4 (quick) / 1-6 (thorough) and every missing pattern of periodic sequences of length 12-24 x constant and per-step transition matrices, process noises, measurement models x '
         'column and 1-D states x inversion function, for the object and procedural linear smoothers, compared with direct conditioning of the joint Gaussian over the whole trajectory; unscented smoother with 4 point schemes on linear problems '
         '(joint Gaussian) and on nonlinear/circular problems (explicit sigma-point recursion), Qs and constant/per-step dts')
BOUND += '; larger problems (dim_x x dim_z 6x4 (part of the histories)) at smaller depth'
ASSUMPTIONS = ['sequences without control input (the smoother has no argument for it)', 'predict-update order, as documented']

MASKS = ['', 'F', 'Q', 'FQ', 'FQHR', 'HR']


def psd_le(P, Q, nm):
    d = A(P) - A(Q)
    if np.linalg.eigvalsh(refs.sym(d)).max() > 1e-8 * max(1., np.abs(A(Q)).max()):
        raise Err((nm + ' exceeds the filtered covariance', A(Q).tolist(), A(P).tolist()))


def lin_check(case):
    from filterpy.kalman import KalmanFilter, rts_smoother
    (nx, nz, var), xf, mask, src, how, seq = case
    s = Sys(nx, nz, var=var)
    n = len(seq)
    c = lin.KF('x', s, [], 1, xf).fresh()
    o = c.o
    mats = [step_mats(s, mask, i) for i in range(n)]
    if src == 'batch':
        kw = {k + 's': [m[i] for m in mats] for i, k in enumerate('FQHR') if k in mask}
        zs = [None if z is None else s.z[z].reshape(-1, 1) for z in seq]
        Xs, Ps, _, _ = o.batch_filter(zs, **kw)
    else:
        m, C, _, _, _, _, _ = reference(s, mask, False, seq, 'col', s.x0, s.P0)
        Xs = A(m).reshape((n, nx, 1) if xf == 'col' else (n, nx))
        Ps = A(C)
    Xs, Ps = c.give(Xs, 'Xs'), c.give(Ps, 'Ps')
    kw = {}
    if 'F' in mask or how == 'proc':
        kw['Fs'] = c.give([m[0].copy() for m in mats], 'Fs')
    if 'Q' in mask or how == 'proc':
        kw['Qs'] = c.give([m[1].copy() for m in mats], 'Qs')
    if how == 'pinv':
        kw['inv'] = np.linalg.pinv
    if how == 'array' and 'Fs' in kw:
        kw['Fs'] = c.give(A(kw['Fs']), 'Fs')
    before = o.x.copy(), o.P.copy()
    for rep in range(2):
        r = rts_smoother(Xs, Ps, **kw) if how == 'proc' else o.rts_smoother(Xs, Ps, **kw)
        x, P, K, Pp = r
        xp, Pq = refs.predict(s.x0, s.P0, mats[0][0], mats[0][1])
        wx, wP = refs.smooth_joint(xp, Pq, [m[0] for m in mats], [m[1] for m in mats],
                                   [None if z is None else (s.z[z], m[2], m[3]) for z, m in zip(seq, mats)])
        need('smoothed means', x, wx, Xs.shape, 1e-7)
        need('smoothed covariances', P, wP, Ps.shape, 1e-7)
        need('last smoothed mean', x[-1], Xs[-1], None, 1e-12)
        need('last smoothed covariance', P[-1], Ps[-1], None, 1e-12)
        for k in range(n):
            psd_le(P[k], Ps[k], 'smoothed covariance')
            if k < n - 1:
                F, Q = mats[k + 1][:2]
                pp = F.dot(Ps[k]).dot(F.T) + Q
                need('predicted covariance', Pp[k], pp)
                need('smoother gain', K[k], Ps[k].dot(F.T).dot(np.linalg.inv(pp)), None, 1e-7)
        for q in r:
            c.hold(q, 'smoother result')
    if not (np.array_equal(before[0], o.x) and np.array_equal(before[1], o.P)):
        raise Err(('smoothing changed the filter', before, (o.x, o.P)))
    f = c.frames()
    if f:
        raise Err(f)
    return wx


def given_check(case):
    """estimates that do not come from a filter run here (constant-gain filter, recorded data): the recursion itself"""
    from filterpy.kalman import KalmanFilter, rts_smoother
    (nx, nz, var), xf, pm, xm, fm, qm, how = case
    s = Sys(nx, nz, var=var)
    c = lin.KF('x', s, [], 1, xf).fresh()
    o = c.o
    Pl = [s.P1, s.P0]
    xl = [s.x0, s.x1]
    n = len(pm)
    Xs = A([xl[i] for i in xm]).reshape((n, nx, 1) if xf == 'col' else (n, nx))
    Ps = A([Pl[i] for i in pm])
    Fs = [s.F[i] for i in fm]
    Qs = [s.Q[i] for i in qm]
    x, P, K, Pp = [A(v).copy() for v in (Xs.reshape(n, nx), Ps, np.zeros_like(Ps), np.zeros_like(Ps))]
    for k in range(n - 2, -1, -1):
        F = Fs[k + 1]
        Pp[k] = F.dot(Ps[k]).dot(F.T) + Qs[k + 1]
        K[k] = np.linalg.solve(Pp[k], F.dot(Ps[k])).T
        x[k] = Xs[k].reshape(-1) + K[k].dot(x[k + 1] - F.dot(Xs[k].reshape(-1)))
        P[k] = Ps[k] + K[k].dot(P[k + 1] - Pp[k]).dot(K[k].T)
    kw = {}
    if how == 'own':
        if len(set(fm[1:])) > 1 or len(set(qm[1:])) > 1:
            return [0.]
        o.F, o.Q = c.give(Fs[-1].copy(), 'F'), c.give(Qs[-1].copy(), 'Q')
    else:
        kw = dict(Fs=c.give([q.copy() for q in Fs], 'Fs'), Qs=c.give([q.copy() for q in Qs], 'Qs'))
    a = c.give(Xs, 'Xs'), c.give(Ps, 'Ps')
    r = rts_smoother(*a, **kw) if how == 'proc' else o.rts_smoother(*a, **kw)
    need('smoothed means', r[0], x.reshape(Xs.shape), Xs.shape, 1e-7)
    need('smoothed covariances', r[1], P, Ps.shape, 1e-7)
    need('smoother gains', A(r[2])[:-1], K[:-1], None, 1e-7)
    need('predicted covariances', A(r[3])[:-1], Pp[:-1], None, 1e-7)
    f = c.frames()
    if f:
        raise Err(f)
    return x


def given_cases(shape, th):
    def g():
        N = 4
        pat = list(itertools.product((0, 1), repeat=N)) if th else [(0,) * N, (1,) * N, (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 1, 0), (1, 1, 1, 0)]
        fq = [(0,) + q for q in itertools.product((0, 1), repeat=N - 1)]
        for xf in ('col', '1d'):
            for i, pm in enumerate(pat):
                for xm in ((0,) * N, (0, 1, 0, 1)):
                    for fm in fq:
                        for qm in fq:
                            for how in ('own', 'obj', 'proc'):
                                if how != 'own' or (len(set(fm[1:])) == 1 and len(set(qm[1:])) == 1):
                                    yield shape, xf, pm, xm, fm, qm, how
    return g


def lin_cases(shape, th):
    def g():
        for xf in ('col', '1d'):
            for mask in MASKS:
                for n, q in enumerate(seqs(6 if th else 4)):
                    hows = ('obj', 'proc', 'pinv', 'array')
                    for how in (hows if mask in ('', 'FQHR') else (hows[n % 4], 'obj')):
                        yield shape, xf, mask, ('batch', 'ref')[n % 2], how, q
                for w in itertools.product((0, 1, None), repeat=3):
                    for L in ((12,) if not th else (12, 24)):
                        yield shape, xf, mask, 'batch', 'obj', tuple(itertools.islice(itertools.cycle(w), L))
    return g


# ------------------------------------------------------------- unscented

FAMS = [('merwe', .5, 2., 1.), ('merwe', 1., 0., 2.), ('julier', 1.), ('simplex',)]
PROBS = ['linear', 'nl', 'angle', 'res']


def prob(k, s):
    return {'linear': sp.Problem, 'nl': sp.NL, 'angle': sp.Angle, 'res': sp.Res}[k](s)


def ukf_check(case):
    pk, fi, (nx, nz), Qm, dtm, UT, seq = case
    s = Sys(nx, nz, var=32)
    pr = prob(pk, s)
    m = sp.SP('x', pr, FAMS[fi], [], 1)
    c = m.fresh()
    o = c.o
    n = len(seq)
    dts = [.3, .7, .2, 1., .5]
    dt = lambda k: m.dt if dtm is None else dtm if isinstance(dtm, float) else dts[k % 5]
    Q = lambda k: s.Q[0] if Qm is None else s.Q[(k + 1) % 4]
    st = m.init()
    Xs, Ps = [], []
    for k, z in enumerate(seq):
        st = dict(st, Q=Q(k))
        q = m.step(st, ('p', dt(k), None, None))
        if q is None:
            return [0.]
        st = q[0]
        if z is not None:
            q = m.step(st, ('u', z, None, None, None))
            if q is None:
                return [0.]
            st = q[0]
        Xs.append(st['x'])
        Ps.append(st['P'])
    if pr.linear and not UT:
        b = sp.DW * pr.b
        xp, Pq = refs.predict(s.x0, s.P0, pr.Fm(dt(0)), Q(0), b)
        wx, wP = refs.smooth_joint(xp, Pq, [pr.Fm(dt(k)) for k in range(n)], [Q(k) for k in range(n)],
                                   [None if z is None else (s.z[z] - sp.DW * pr.d, pr.H, s.R[0]) for z in seq], [b] * n)
    else:
        wx, wP = [x.copy() for x in Xs], [p.copy() for p in Ps]
        sp.EDGE[0] = False
        for k in range(n - 2, -1, -1):
            S, Wm, Wc = sp.points(FAMS[fi], Xs[k], Ps[k])
            Y = A([pr.f(p.copy(), dt(k + 1), sp.DW) for p in S])
            xb, Pb, D = sp.ut(Y, Wm, Wc, Q(k + 1), pr.xmean, pr.resx)
            rx = pr.resx or (lambda a, b: a - b)
            if UT:
                xb, Pb = sp.shift(xb), Pb * 1.25
                D = A([rx(q, xb) for q in Y])
            if np.linalg.eigvalsh(Pb).min() < 1e-6:
                return [0.]
            Xd = A([rx(p, Xs[k]) for p in S])
            C = sum(w * np.outer(a, b) for w, a, b in zip(Wc, Xd, D))
            G = C.dot(np.linalg.inv(Pb))
            wx[k] = Xs[k] + G.dot(rx(wx[k + 1], xb))
            wP[k] = Ps[k] + G.dot(wP[k + 1] - Pb).dot(G.T)
        if sp.EDGE[0]:
            return [0.]
    kw = {}
    if Qm:
        kw['Qs'] = c.give([Q(k).copy() for k in range(n)], 'Qs')
    if dtm is not None:
        kw['dts'] = dtm if isinstance(dtm, float) else c.give([dt(k) for k in range(n)], 'dts')
    if UT:
        kw['UT'] = sp.custom_ut
    Xs, Ps = c.give(A(Xs), 'Xs'), c.give(A(Ps), 'Ps')
    before = o.x.copy(), o.P.copy()
    for rep in range(2):
        r = o.rts_smoother(Xs, Ps, **kw)
        for q in r:
            c.hold(q, 'smoother result')
        d = A(r[0]) - A(wx)
        if pk == 'angle':
            d[:, -1] = (d[:, -1] + np.pi) % (2 * np.pi) - np.pi
        if np.shape(r[0]) != Xs.shape or not (np.abs(d) <= 1e-6 * max(1., np.abs(wx).max())).all():
            raise Err(('smoothed means', A(wx).tolist(), A(r[0]).tolist()))
        need('smoothed covariances', r[1], wP, Ps.shape, 1e-6)
        need('last smoothed mean', r[0][-1], Xs[-1], None, 1e-12)
        need('last smoothed covariance', r[1][-1], Ps[-1], None, 1e-12)
    if not (np.array_equal(before[0], o.x) and np.array_equal(before[1], o.P)):
        raise Err(('smoothing changed the filter', before, (o.x, o.P)))
    f = c.frames()
    if f:
        raise Err(f)
    return wx


def ukf_cases(pk, shape, th):
    def g():
        for fi in range(len(FAMS)):
            if FAMS[fi][0] == 'simplex' and pk in ('angle', 'res') and not th:
                continue
            for Qm in (None, 'list'):
                for dtm in (None, .25, 'list'):
                    for n, q in enumerate(seqs(5 if th else 3)):
                        yield pk, fi, shape, Qm, dtm, bool(n % 2), q
                    for w in ((0, 1, None), (0,), (None, 1), (1, None, None, 0)):
                        yield pk, fi, shape, Qm, dtm, False, tuple(itertools.islice(itertools.cycle(w), 8))
    return g


def models(tier):
    th = tier == 'thorough'
    out = []
    for shape in ((1, 1, 32), (2, 1, 32), (2, 2, 32)) if not th else ((1, 1, 32), (2, 1, 32), (2, 2, 32), (3, 2, 32), (3, 1, 32)):
        t = '%dx%d' % shape[:2]
        out += [engine.GridFn('linear-%s-%d' % (t, i), part(lin_cases(shape, th), i, 3), wrap(lin_check)) for i in range(3)]
        out.append(engine.GridFn('given-' + t, given_cases(shape, th), wrap(given_check)))
    for pk in PROBS:
        for shape in ((1, 1), (2, 1), (3, 2)) if th else ((2, 1), (2, 2)):
            if pk == 'angle' and shape[0] < 2:
                continue
            out.append(engine.GridFn('ukf-%s-%dx%d' % ((pk,) + shape), ukf_cases(pk, shape, th), wrap(ukf_check)))
    out.append(engine.GridFn('linear-big', part(lin_cases((6, 4, 32), False), 0, 6), wrap(lin_check)))
    out.append(engine.GridFn('given-big', part(given_cases((6, 4, 32), False), 0, 3), wrap(given_check)))
    for pk in PROBS:
        out.append(engine.GridFn('ukf-%s-big' % pk, part(ukf_cases(pk, (6, 4), False), 0, 4), wrap(ukf_check)))
    return out
