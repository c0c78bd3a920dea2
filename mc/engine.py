"""
Stateless explorer for the real filterpy code.

A Model closes one configuration of the library with a tiny alphabet of
operations.  The explorer enumerates *every* operation sequence up to the
model's depth (depth first, simplest operation first), replays each one from
scratch on a freshly built real object and, after every operation, compares
everything a user can observe with a reference model (a pure step function that
shares no code with filterpy).  It also enumerates every periodic history w^k
for every word w up to a given length ("lassos"), which reaches behaviour that
depends on the number of operations performed.

Besides the per-step comparison every execution checks two frame conditions:
  * arrays handed to the library by the driver are never modified by it, and
  * arrays the library handed out (and that the model declares to be results)
    keep their value for the remainder of the execution.

A Grid closes a pure function with a finite set of arguments and enumerates it.
"""
from __future__ import print_function
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import itertools
import multiprocessing as mp

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

RTOL = 1e-7
ATOL = 1e-11


class Bad(Exception):
    """raised by a reference / driver to report a violation"""


class Ctx(object):
    """one execution of the real code: `o` is whatever the model built"""
    pool = None             # when set: equal arrays of the same name are one shared object
    layout = None           # when set: the caller's arrays are stored in this way

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self._given = []
        self._held = []
        self.kept = {}

    def give(self, a, name='argument'):
        """register a caller-owned array/list; it must never be modified"""
        if isinstance(a, np.ndarray):
            if Ctx.layout is not None:
                a = lay(a, Ctx.layout)
            if Ctx.pool is not None:
                a = Ctx.pool.setdefault((name, a.shape, a.dtype.str, a.tobytes()), a)
            self._given.append((name, a, a.copy()))
        elif isinstance(a, list):
            c = [e.copy() if isinstance(e, np.ndarray) else e for e in a]
            self._given.append((name, a, c))
            for e in a:
                if isinstance(e, np.ndarray):
                    self._given.append((name, e, e.copy()))
        return a

    def hold(self, a, name):
        """register a result of the library; its value must not change later"""
        if isinstance(a, np.ndarray) and a.dtype != object:
            self._held.append((name, a, a.copy()))
        return a

    def forget(self, a):
        """the user modifies this array: nothing registered about it counts any more"""
        if isinstance(a, np.ndarray):
            k = lambda b: not (isinstance(b, np.ndarray) and np.may_share_memory(a, b))
            self._given = [g for g in self._given if k(g[1])]
            self._held = [h for h in self._held if k(h[1])]
            self.kept = {n: b for n, b in self.kept.items() if k(b)}

    def assign(self, o, attr, value, how=None):
        """a user assigns an attribute: a new array, the same object as last time, a refilled buffer, in place, or by *="""
        if how is None:
            setattr(o, attr, self.give(value.copy(), 'assigned ' + attr))
        elif how == 'same':
            k = (attr, value.tobytes())
            if k not in self.kept:
                self.kept[k] = self.give(value.copy(), 'assigned ' + attr)
            setattr(o, attr, self.kept[k])
        elif how == 'buf':
            k = (attr, 'buffer')
            if k not in self.kept:
                self.kept[k] = value.copy()
            b = self.kept[k]
            self.forget(b)
            self.kept[k] = b
            b[...] = value
            setattr(o, attr, b)
        elif how == 'mut':
            b = getattr(o, attr)
            self.forget(b)
            b[...] = value.reshape(b.shape)
        elif how == 'mul':
            b = getattr(o, attr)
            self.forget(b)
            b *= value
            setattr(o, attr, b)
        else:
            raise ValueError(how)

    def frames(self):
        for name, a, c in self._given:
            if isinstance(a, list):
                ok = len(a) == len(c) and all(_same(p, q) for p, q in zip(a, c))
            else:
                ok = _same(a, c)
            if not ok:
                return ('caller-owned %s was modified' % name, c, a)
        for name, a, c in self._held:
            if not _same(a, c):
                return ('earlier result %s changed afterwards' % name, c, a)
        return None


def _same(a, b):
    try:
        a = np.asarray(a)
        b = np.asarray(b)
    except Exception:
        return a is b
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(p is q or p == q for p, q in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in 'fc':
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return bool((a == b).all())


LAYOUTS = ('ro', 'F', 'stride', 'rev', 'be', 'roview')


def lay(a, how):
    """the same numbers stored differently"""
    if a.dtype.kind != 'f' or not a.ndim:
        return a
    if how == 'ro':                 # may not be written
        b = a.copy()
        b.setflags(write=False)
    elif how == 'F':                # column-major
        b = np.asfortranarray(a)
    elif how == 'stride':           # every second element of something bigger
        b = np.full(tuple(2 * n + 1 for n in a.shape), 1e9)[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
        b[...] = a
    elif how == 'rev':              # stored back to front
        b = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    elif how == 'be':               # the other byte order
        b = a.astype('>f8')
    elif how == 'roview':           # part of a column-major array that may not be written
        b = np.full(tuple(n + 2 for n in a.shape), 1e9, order='F')[tuple(slice(1, n + 1) for n in a.shape)]
        b[...] = a
        b.setflags(write=False)
    assert np.array_equal(a, b)
    return b


class Expect(object):
    """compiled expectation for one step"""
    __slots__ = ('num', 'pred', 'vec', 'tol', 'raw')

    def __init__(self, exp, rtol=RTOL, atol=ATOL):
        self.raw = exp
        self.num = []
        self.pred = []
        vs, ts = [], []
        for k, v in exp.items():
            if callable(v):
                self.pred.append((k, v))
                continue
            a = np.asarray(v, dtype=float)
            if not np.isfinite(a).all():
                raise RuntimeError('reference is not finite for %s: %r' % (k, v))
            # key ending in '!' : the shape is part of the contract
            self.num.append((k, a.shape if k.endswith('!') else None, a.size))
            f = a.ravel()
            m = np.abs(f).max() if f.size else 0.
            vs.append(f)
            ts.append(np.full(f.size, rtol * m + atol))
        self.vec = np.concatenate(vs) if vs else np.zeros(0)
        self.tol = np.concatenate(ts) if ts else np.zeros(0)

    def compare(self, obs):
        """returns (error or None, flat observation)"""
        parts = []
        bad = None
        for k, shp, size in self.num:
            if k not in obs:
                return (k, self.raw[k], '<not observable>'), None
            try:
                a = np.asarray(obs[k], dtype=float)
            except Exception:
                return (k, self.raw[k], obs[k]), None
            if shp is not None and a.shape != shp:
                return (k + ' (shape)', self.raw[k], a), None
            if a.size != size:
                return (k + ' (size)', self.raw[k], a), None
            parts.append(a.ravel())
        flat = np.concatenate(parts) if parts else np.zeros(0)
        d = np.abs(flat - self.vec)
        if not (d <= self.tol).all():
            i = 0
            for (k, shp, size), p in zip(self.num, parts):
                dd = d[i:i + size]
                if not (dd <= self.tol[i:i + size]).all():
                    bad = (k, self.raw[k], obs[k])
                    break
                i += size
            return bad, None
        for k, f in self.pred:
            r = f(obs[k]) if k in obs else '<not observable>'
            if r is not None and r is not True:
                return (k, r, obs.get(k)), None
        return None, flat


class Model(object):
    name = '?'
    ops = ()
    depth = 3
    lasso = None            # (max word length, total steps)
    rtol = RTOL
    atol = ATOL

    def fresh(self):
        raise NotImplementedError

    def do(self, c, op):
        raise NotImplementedError

    def init(self):
        raise NotImplementedError

    def step(self, s, op):
        raise NotImplementedError

    def lasso_ok(self, w):
        return True

    def extra(self):
        """iterable of further complete traces"""
        return ()


class Violation(object):
    def __init__(self, model, trace, what, expected, observed):
        self.model = model
        self.trace = list(trace)
        self.what = what
        self.expected = expected
        self.observed = observed

    def text(self):
        return 'model=%s history=%s\n  %s\n  expected: %s\n  observed: %s' % (
            self.model, self.trace, self.what, _short(self.expected), _short(self.observed))


def _short(v):
    try:
        if isinstance(v, np.ndarray):
            v = v.tolist()
        s = repr(v)
    except Exception:
        s = '<unprintable>'
    return s if len(s) < 1500 else s[:1500] + '...'


class Stats(object):
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.evals = 0
        self.distinct = set()
        self.nontrivial = 0


def _h(flat, extra):
    r = np.round(flat, 12) + 0.0
    return hash((extra, r.tobytes()))


class limit(object):
    """a history or case (milliseconds when all is well) that does not end within LIMIT seconds of CPU time is a violation"""
    LIMIT = 40.

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.LIMIT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    @staticmethod
    def fire(*a):
        raise Bad('does not terminate (more than %g s of CPU time)' % limit.LIMIT)


class Runner(object):
    """explores one model"""

    def __init__(self, model, stats=None):
        self.m = model
        self.st = stats or Stats()
        self.memo = {}

    def ref(self, trace):
        """(state, Expect) after `trace`; None if disabled"""
        key = tuple(trace)
        if key in self.memo:
            return self.memo[key]
        if not key:
            r = (self.m.init(), None)
        else:
            p = self.ref(key[:-1])
            if p is None:
                r = None
            else:
                q = self.m.step(p[0], key[-1])
                r = None if q is None else (q[0], Expect(q[1], self.m.rtol, self.m.atol))
        if len(key) <= 12:
            self.memo[key] = r
        return r

    def run(self, trace, refs=None):
        """replays one complete history; returns a Violation or None"""
        with limit():
            return self._run(trace, refs)

    def _run(self, trace, refs):
        m = self.m
        self.st.traces += 1
        try:
            c = m.fresh()
        except Bad as e:
            return Violation(m.name, [], str(e), None, None)
        except Exception as e:
            return Violation(m.name, [], 'construction raised: ' + _tb(e), None, None)
        for i, op in enumerate(trace):
            e = refs[i] if refs is not None else self.ref(trace[:i + 1])[1]
            try:
                obs = m.do(c, op)
            except Bad as ex:
                return Violation(m.name, trace[:i + 1], str(ex), None, None)
            except Exception as ex:
                return Violation(m.name, trace[:i + 1], 'raised: ' + _tb(ex), 'no exception', None)
            self.st.transitions += 1
            try:
                err, flat = e.compare(obs)
            except Exception as ex:
                return Violation(m.name, trace[:i + 1], 'observation cannot be compared: ' + _tb(ex), None, None)
            if err is not None:
                return Violation(m.name, trace[:i + 1], err[0], err[1], err[2])
            fp = obs.get('_fp')
            self.st.states.add(_h(flat if fp is None else np.concatenate([flat] + [np.ravel(np.asarray(q, dtype=float)) for q in fp]), m.name))
        try:
            f = c.frames()
        except Exception as ex:
            f = ('arguments cannot be compared: ' + _tb(ex), None, None)
        if f is not None:
            return Violation(m.name, trace, f[0], f[1], f[2])
        return None

    def explore(self, prefix=()):
        m = self.m

        def rec(trace, refs):
            if len(trace) == m.depth:
                return self.run(trace, refs)
            any_child = False
            for op in m.ops:
                t = trace + (op,)
                r = self.ref(t)
                if r is None:
                    continue
                any_child = True
                v = rec(t, refs + [r[1]])
                if v is not None:
                    return v
            if not any_child and trace:
                return self.run(trace, refs)
            return None

        prefix = tuple(prefix)
        refs = []
        for i in range(len(prefix)):
            r = self.ref(prefix[:i + 1])
            if r is None:
                return None
            refs.append(r[1])
        v = rec(prefix, refs)
        if v is not None:
            v = self.shrink(v)
        return v

    def longs(self, words):
        m = self.m
        for w, n in words:
            s = m.init()
            trace, refs = [], []
            ok = True
            for op in itertools.islice(itertools.cycle(w), n):
                q = m.step(s, op)
                if q is None:
                    ok = False
                    break
                s = q[0]
                trace.append(op)
                refs.append(Expect(q[1], m.rtol, m.atol))
            if not ok and not trace:
                continue
            v = self.run(tuple(trace), refs)
            if v is not None:
                return v
        return None

    def shrink(self, v):
        t = list(v.trace)
        best = v
        i = 0
        tries = 0
        while i < len(t) and tries < 60:
            c = t[:i] + t[i + 1:]
            tries += 1
            refs = []
            s = self.m.init()
            ok = bool(c)
            for op in c:
                q = self.m.step(s, op)
                if q is None:
                    ok = False
                    break
                s = q[0]
                refs.append(Expect(q[1], self.m.rtol, self.m.atol))
            if ok:
                w = self.run(tuple(c), refs)
                if w is not None and w.what == v.what:
                    best = w
                    t = list(w.trace)
                    i = 0
                    continue
            i += 1
        return best


def _tb(e):
    tb = traceback.extract_tb(sys.exc_info()[2])
    last = tb[-1] if tb else None
    return '%s: %s (at %s:%s)' % (type(e).__name__, e, getattr(last, 'filename', '?'), getattr(last, 'lineno', '?'))


class Grid(object):
    """finite enumeration of the arguments of a pure function"""
    name = '?'

    def cases(self):
        raise NotImplementedError

    def check(self, case):
        """returns (error-tuple or None, fingerprint of result, nontrivial?)"""
        raise NotImplementedError


class GridFn(Grid):
    def __init__(self, name, cases, check):
        self.name = name
        self._cases = cases
        self._check = check

    def cases(self):
        return self._cases() if callable(self._cases) else self._cases

    def check(self, case):
        return self._check(case)


def close(a, b, rtol=RTOL, atol=1e-10):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.size != b.size:
        return False
    a = a.ravel()
    b = b.ravel()
    if not a.size:
        return True
    m = np.abs(b).max()
    return bool((np.abs(a - b) <= rtol * m + atol).all())


def run_grid(g, st):
    for case in g.cases():
        st.evals += 1
        try:
            with limit():
                r = g.check(case)
        except Bad as e:
            return Violation(g.name, [case], str(e), None, None)
        except Exception as e:
            return Violation(g.name, [case], 'raised: ' + _tb(e), 'no exception', None)
        err, fp = (r if isinstance(r, tuple) and len(r) == 2 else (r, None))
        if err is not None:
            if not isinstance(err, tuple):
                err = (err, None, None)
            return Violation(g.name, [case], err[0], err[1], err[2])
        if fp is not None:
            st.distinct.add(hash((g.name, fp if isinstance(fp, (str, bytes, int, tuple)) else np.round(np.asarray(fp, float), 9).tobytes())))
        else:
            st.distinct.add(hash((g.name, repr(case))))
        if len(st.samples) < 2:
            st.samples.append({'grid': g.name, 'case': _short(case)})
    return None


# --------------------------------------------------------------- job running

_JOBS = None


def _job(i):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    kind, m, arg = _JOBS[i]
    st = Stats()
    try:
        if kind == 'grid':
            v = run_grid(m, st)
        else:
            r = Runner(m, st)
            if kind == 'dfs':
                v = r.explore(arg)
            else:
                v = r.longs(arg)
                if v is not None and len(v.trace) <= 60:
                    v = r.shrink(v)
            if v is None:
                st.samples.append({'model': m.name, 'kind': kind,
                                   'trace': [str(o) for o in (list(arg) if kind == 'dfs' else list(arg[0][0]))]})
    except Exception as e:      # harness failure: never silent
        return (i, None, None, traceback.format_exc())
    vv = None
    if v is not None:
        vv = (v.model, [_plain(o) for o in v.trace], v.what, _short(v.expected), _short(v.observed), v.text())
    return (i, vv, (st.states, st.transitions, st.traces, st.samples[:2], st.evals, st.distinct), None)


def _plain(o):
    try:
        json.dumps(o)
        return o
    except Exception:
        return _short(o)


def make_jobs(models):
    jobs = []
    for m in models:
        if isinstance(m, Grid):
            jobs.append(('grid', m, None))
            continue
        r = Runner(m)
        # split by first op (and second if big)
        first = [op for op in m.ops if r.ref((op,)) is not None]
        big = len(m.ops) ** m.depth
        if m.depth >= 2 and big > 3000:
            for op in first:
                for op2 in m.ops:
                    if r.ref((op, op2)) is not None:
                        jobs.append(('dfs', m, (op, op2)))
        elif big > 300:
            for op in first:
                jobs.append(('dfs', m, (op,)))
        else:
            jobs.append(('dfs', m, ()))
        words = []
        if m.lasso:
            mw, n = m.lasso
            for k in range(1, mw + 1):
                for w in itertools.product(m.ops, repeat=k):
                    if k == 2 and w[0] == w[1]:
                        continue
                    if k == 3 and w[0] == w[1] == w[2]:
                        continue
                    if m.lasso_ok(w):
                        words.append((w, n))
        words += [(tuple(t), len(t)) for t in m.extra()]
        for j in range(0, len(words), 24):
            jobs.append(('long', m, words[j:j + 24]))
    return jobs


def lengthen(models, n):
    """the simplest model of every kind is also run for n steps of every periodic history"""
    seen = set()
    for m in models:
        k = type(m).__name__
        if isinstance(m, Model) and m.lasso and k not in seen:
            seen.add(k)
            m.lasso = (m.lasso[0], max(n, m.lasso[1]))
    return models


def run_models(models, procs=None):
    """explore everything; returns (violations, stats dict, errors)"""
    global _JOBS
    _JOBS = make_jobs(models)
    procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    res = {}
    t0 = time.time()
    order = list(range(len(_JOBS)))
    if procs > 1 and len(order) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(procs) as pool:
            it = pool.imap_unordered(_job, order, chunksize=1)
            bad = False
            for _ in order:
                r = it.next(timeout=800)
                res[r[0]] = r
                bad = bad or r[1] is not None
                if bad and time.time() - t0 > 150:        # a verdict exists; the rest only takes time
                    break
    else:
        for i in order:
            res[i] = _job(i)
    states, distinct = set(), set()
    tr = traces = evals = 0
    samples, viol, errs = [], [], []
    for i in order:
        if i not in res:
            continue
        _, v, s, e = res[i]
        if e:
            errs.append('%s: %s' % (_JOBS[i][1].name, e))
            continue
        if v:
            viol.append(v)
        states |= s[0]
        tr += s[1]
        traces += s[2]
        if len(samples) < 40:
            samples += s[3]
        evals += s[4]
        distinct |= s[5]
    viol.sort(key=lambda v: len(v[1]))
    return viol, dict(states=len(states), transitions=tr, traces=traces, samples=samples,
                      evals=evals, distinct=len(distinct), models=len(models)), errs
