import re
import io
import itertools
from collections import deque
import numpy as np
from mc import zoo
from mc.engine import GridFn
from props.p31 import look

ID = 'P35'
LEVEL = 'model_checking'
TECHNIQUE = 'GRID'
BOUND = ('every filter class and configuration of the zoo (all shapes up to 3x2, both state forms): every operation history up to depth 3 (quick) / 4 (thorough), the report parsed back at every state; '
         'the printing helpers over every array shape up to 6x6, columns of up to 60 rows, long rows and tall matrices and lists/tuples/deques of them, 6 value palettes, labels and no label; 12 objects of mixed attributes')
ASSUMPTIONS = ['numbers are compared to the 8 digits NumPy prints']

NUM = r'(?:[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)|None|True|False)'
LAB = re.compile(r'^([A-Za-z_][\w\-]*)((?:\[\d+\])*)((?: \([^)]*\))?) = ')


def toks(text):
    out = []
    for t in re.findall(r'(?<![A-Za-z_\d.])' + NUM + r'(?![A-Za-z_])', text):
        out.append({'None': None, 'True': 1., 'False': 0.}[t] if t in ('None', 'True', 'False') else float(t))
    return out


def flat(v):
    """numbers of a value in reading order; None if it has others"""
    if v is None:
        return [None]
    if isinstance(v, (list, tuple, deque)):
        r = [flat(q) for q in v]
        return None if any(q is None for q in r) else [x for q in r for x in q]
    try:
        a = np.asarray(v)
    except Exception:
        return None
    if a.dtype == object:
        return [None if q is None else float(q) for q in a.ravel()] if all(q is None or isinstance(q, (int, float, np.floating)) for q in a.ravel()) else None
    if a.dtype.kind not in 'fiub':
        return None
    return [float(q) for q in a.ravel()]


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g is None or w is None:
            if g is not w:
                return False
        elif not (g == w or (g != g and w != w) or abs(g - w) <= 2e-8 * max(1., abs(w))):
            return False
    return True


def sections(text):
    """[(label, index suffix, text)] of a report"""
    out = []
    for line in text.split('\n'):
        m = LAB.match(line)
        if m:
            out.append([m.group(1), m.group(2), line[m.end():]])
        elif out:
            out[-1][2] += '\n' + line
    return out


SHOWN = {
    'kf': 'dim_x dim_z dim_u x P x_prior P_prior x_post P_post F Q R H K y S SI M B z log-likelihood likelihood mahalanobis alpha',
    'ekf': 'x P x_prior P_prior F Q R K y S likelihood log-likelihood mahalanobis',
    'imm': 'x P x_prior P_prior x_post P_post N mu M cbar likelihood omega',
    'mmae': 'dim_x x P p',
    'sqrt': 'dim_x dim_z dim_u x P F Q R H K y S SI M B',
    'info': 'dim_x dim_z dim_u x P_inv x_prior P_inv_prior F Q R_inv H K y z S B log-likelihood likelihood',
    'fading': 'dim_x dim_z dim_u x P F Q R H K y S B likelihood log-likelihood mahalanobis alpha',
    'hinf': 'dim_x dim_z dim_u gamma x P F Q V W K y',
    'ukf': 'x P x_prior P_prior Q R S K y log-likelihood likelihood mahalanobis sigmas_f Wm Wc',
    'ckf': 'dim_x dim_z x P Q R K y log-likelihood likelihood mahalanobis',
    'enkf': 'dim_x dim_z dt x P x_prior P_prior Q R K S sigmas',
    'fls': 'dim_x dim_z N x P F Q R H K y S B',
    'gh': 'dt g h x dx x_prediction dx_prediction y z',
    'ghk': 'dt g h k x dx ddx x_prediction dx_prediction ddx_prediction y z',
    'order': 'dt order x g h k y z',
    'mem': 'dt order beta x P e',
    'lsq': 'dt sigma x K',
}


def report(o, need, what):
    """None or an error: the report of object o names and shows its attributes"""
    pre = look(o)
    text = repr(o)
    again = repr(o)
    if text != again:
        return (what + ': two reports of the same filter', text, again)
    post = look(o)
    for k in pre:
        if k not in post or pre[k].shape != post[k].shape or not (pre[k] == post[k]).all():
            return (what + ': the report changed attribute %s' % k, pre[k], post.get(k))
    if type(o).__name__ not in text.split('\n')[0]:
        return (what + ': the report names the class', type(o).__name__, text.split('\n')[0])
    secs = sections(text)
    shown = set()
    for lab, idx, body in secs:
        a = lab.replace('-', '_')
        shown.add(lab)
        if idx or not hasattr(o, a):
            continue
        w = flat(getattr(o, a))
        if w is None:
            continue
        if not same(toks(body), w):
            return (what + ': %s in the report' % lab, getattr(o, a), body)
    # attributes that are lists: element by element
    for lab in {l for l, i, b in secs if i}:
        a = lab.replace('-', '_')
        if hasattr(o, a):
            w = flat(getattr(o, a))
            if w is not None and not same([t for l, i, b in secs if l == lab for t in toks(b)], w):
                return (what + ': %s in the report' % lab, getattr(o, a), [b for l, i, b in secs if l == lab])
    for n in need.split():
        if n not in shown:
            return (what + ': the report shows', n, sorted(shown))
    return None


def ents():
    return [e for e in zoo.entries() + zoo.others() if not e.kind.endswith('proc') and getattr(e.m.fresh(), 'o', None) is not None]


BY = {}


def hist(case):
    n, ops = case
    if not BY:
        BY.update((e.name, e) for e in ents())
    e = BY[n]
    c = e.m.fresh()
    s = e.m.init()
    r = report(c.o, SHOWN[e.kind], '%s new' % e.name)
    for i, op in enumerate(ops):
        if r is not None:
            return r, None
        q = e.m.step(s, op)
        if q is None:
            return None, 'x'
        s = q[0]
        e.m.do(c, op)
        r = report(c.o, SHOWN[e.kind], '%s after %r' % (e.name, ops[:i + 1]))
    return (r, None) if r is not None else (None, repr(c.o))


# ---------------------------------------------------------------- helpers

PAL = [lambda i: float(i), lambda i: i * .1 - 1.25, lambda i: (-1) ** i * 10. ** (i % 7 - 3), lambda i: i, lambda i: 1e9 * i + .5, lambda i: 123456.789 * (i + 1)]


def arr(shape, pal):
    n = int(np.prod(shape)) if shape else 1
    return np.array([PAL[pal](i) for i in range(n)]).reshape(shape)


def layout(lab, v, s):
    """error or None: text s shows array/scalar v under label lab"""
    pre = (lab + ' = ') if lab else ''
    if not s.startswith(pre):
        return ('label', pre, s)
    ls = s.split('\n')
    for l in ls[1:]:
        if not l.startswith(' ' * len(pre)):
            return ('continuation lines are indented under the value', ' ' * len(pre), l)
    if not same(toks(s[len(pre):]), flat(v)):
        return ('numbers of %s' % lab, v, s)
    sh = np.shape(v)
    body = s[len(pre):]
    if len(sh) == 2 and sh[1] == 1 and sh[0] > 1:
        if len(ls) != 1 or not body.endswith('.T') or not body.startswith('[['):
            return ('a column is drawn transposed on one line', True, s)
    elif len(sh) == 2:
        if body.endswith('.T') or (len(ls) != sh[0] and sh[1] <= 4):
            return ('one row per line', sh[0], s)
        if len(ls) == sh[0] > 1 and len({len(l.rstrip(']')) for l in ls}) != 1:
            return ('rows are aligned', True, s)
    elif body.endswith('.T'):
        return ('only columns are drawn transposed', False, s)
    return None


def pretty(case):
    from filterpy.common import pretty_str, pprint
    import contextlib
    shape, pal, lab = case
    v = arr(shape, pal)
    v0 = v.copy()
    for val in ([v] if shape else [v, v[()], v[()].item()]):
        s = pretty_str(lab, val)
        e = layout(lab, val, s)
        if e is not None:
            return e, None
        f = io.StringIO()
        pprint(lab, val, file=f, end='|')
        if f.getvalue() != s + '|':
            return ('pprint prints what pretty_str gives', s + '|', f.getvalue()), None
        with contextlib.redirect_stdout(io.StringIO()) as f:
            pprint(lab, val)
        if f.getvalue() != s + '\n':
            return ('pprint prints what pretty_str gives', s + '\n', f.getvalue()), None
    if not (v == v0).all():
        return ('pretty_str modified its argument', v0, v), None
    return None, s


def lists(case):
    from filterpy.common import pretty_str
    shapes, pal, typ = case
    vals = [arr(s, pal) if s is not None else None for s in shapes]
    s = pretty_str('q', {'list': list, 'tuple': tuple, 'deque': deque}[typ](vals))
    if not vals:
        return (None if s.startswith('q = ') else ('empty', 'q = ..', s)), s
    secs = sections(s)
    if [(l, i) for l, i, b in secs] != [('q', '[%d]' % i) for i in range(len(vals))]:
        return ('labels of the elements', len(vals), s), None
    for (l, i, b), v in zip(secs, vals):
        w = flat(v)
        if not same(toks(b), w):
            return ('numbers of q%s' % i, v, b), None
    # nested
    s = pretty_str('q', [vals, vals])
    secs = sections(s)
    want = [('q', '[%d][%d]' % (a, i)) for a in (0, 1) for i in range(len(vals))]
    if [(l, i) for l, i, b in secs] != want:
        return ('labels of nested elements', want, s), None
    return None, s


def objs(case):
    from filterpy.common import repr_string
    k, private = case

    class Base(object):
        def method(self):
            raise RuntimeError('called')

        @property
        def double(self):
            return self.a * 2

    class Thing(Base):
        pass
    t = Thing()
    t.a = arr(((2, 2), (3,), (3, 1), ())[k % 4], k % 6)
    t._hidden = 3.5 + k
    t.many = [arr((2,), 1), arr((2, 2), 1)][:k % 3]
    t.f = lambda z: z
    t.n = k
    s = repr_string(t, private) if k % 2 else repr_string(t, private=private)
    if s.split('\n')[0] != 'Thing object':
        return ('first line', 'Thing object', s.split('\n')[0]), None
    secs = sections(s)
    labs = {l for l, i, b in secs}
    want = {'a', 'many', 'n', 'double'} | ({'_hidden'} if private else set())
    if labs != want:
        return ('attributes shown (private=%s)' % private, want, labs), None
    for l in want - {'many'}:
        b = [b for q, i, b in secs if q == l]
        if len(b) != 1 or not same(toks(b[0]), flat(getattr(t, l))):
            return ('value of %s' % l, getattr(t, l), b), None
    got = [x for l, i, b in secs if l == 'many' for x in toks(b)]
    if not same(got, flat(t.many)):
        return ('value of many', t.many, got), None
    return None, s


def points(case):
    from filterpy.kalman import MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints
    fam, n, a = case
    o = {'m': lambda: MerweScaledSigmaPoints(n, a, 2., 3. - n), 'j': lambda: JulierSigmaPoints(n, a), 's': lambda: SimplexSigmaPoints(n, a)}[fam]()
    return report(o, {'m': 'n alpha beta kappa Wm Wc', 'j': 'n kappa Wm Wc', 's': 'n alpha Wm Wc'}[fam], fam), '%s%d%g' % case


def models(tier):
    th = tier == 'thorough'
    out = []
    for e in ents():
        d = 4 if th else 3
        out.append(GridFn(e.name, [(e.name, ops) for ops in itertools.product(list(e.m.ops), repeat=d)], hist))
    shapes = [()] + [(n,) for n in range(1, 9)] + [(a, b) for a in range(1, 7) for b in range(1, 7)] + [(n, 1) for n in (8, 12, 20, 40, 60)] + [(1, 24), (40,), (12, 3), (30, 4)]
    out.append(GridFn('pretty', [(s, p, l) for s in shapes for p in range(6) for l in ('x', '', None, 'a long label', 'P[3]')], pretty))
    el = [(), (2,), (2, 2), (3, 1), None]
    out.append(GridFn('lists', [(s, p, t) for n in range(0, 4) for s in itertools.product(el, repeat=n) for p in (0, 1) for t in ('list', 'tuple', 'deque')], lists))
    out.append(GridFn('objects', [(k, pr) for k in range(12) for pr in (True, False)], objs))
    out.append(GridFn('points', [(f, n, a) for f in 'mjs' for n in (1, 2, 3, 4) for a in (.5, 1.)], points))
    return out
