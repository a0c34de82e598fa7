"""Spatial hashing, boxes and small utilities."""
import itertools
from .lib import *
from .rules_soft import ints, zeros

SH = 'rainbow.geometry.spatial_hashing.'
BB = 'rainbow.geometry.aabb.AABB'


def G05(r):
    """hash cells, hash grid and axis aligned boxes"""
    cell(r)
    grid(r)
    boxes(r)


def num(x):
    return x.const() if isinstance(x, T) else x


def cell(r):
    for stamps in ((0, 0, 0), (0, 1), (1, 1, 2), (0, 0, 3, 3), (2, 5), (0, 1, 2, 2)):
        for start in (0, 1):
            if stamps[0] < start:
                continue
            W = world(r)
            f = W.fn(SH + 'HashCell.add')
            nm = 'stamps %s from %d' % (list(stamps), start)
            with r.section('cell ' + nm, f, total=True):
                c = W.new(SH + 'HashCell', lift(start)) if start else W.new(SH + 'HashCell')
                want, last = [], start
                for n, t in enumerate(stamps):
                    W.meth(c, 'add', 'obj%d' % n, lift(t))
                    if t > last:
                        want, last = [], t
                    want = want + ['obj%d' % n]
                    got = items(W, W.get(c, 'object_list'))
                    r.fact('cell holds the objects of its time stamp (%s, %d)' % (nm, n), got == want, f, 'holds %s instead of %s' % (got, want))
                    r.eq('size of the cell (%s, %d)' % (nm, n), W.get(c, 'size'), lift(len(want)), f)
                    r.eq('time stamp of the cell (%s, %d)' % (nm, n), W.get(c, 'time_stamp'), lift(last), f)


def grid(r):
    table = {(0, 0, 0): 3, (1, 2, 3): 3, (3, 2, 1): 8, (-1, 0, 5): 8, (2, 2, 2): 0}
    keys = list(table)
    hist = [[(0, 0), (0, 0), (0, 0)], [(0, 0), (1, 0), (2, 0), (3, 0)], [(4, 0), (4, 1), (4, 1)], [(0, 0), (2, 0), (1, 1), (3, 1), (0, 1), (0, 2)], [(0, 0), (1, 0)] * 40 + [(0, 1)], [(2, 1), (2, 3), (2, 3), (0, 3), (1, 4)]]
    for h, seq in enumerate(hist):
        W = world(r)
        f = W.fn(SH + 'HashGird.insert')
        with r.section('insertion history %d' % h, f, total=True):
            W.ip.models[SH + 'HashGird.get_prefect_hash_value'] = lambda ip, st, a, kw: lift(table[tuple(int(num(x)) for x in a[1:4])])
            g = W.new(SH + 'HashGird')
            seen = {}
            for n, (k, t) in enumerate(seq):
                box = NObj('box%d' % n, {})
                out = W.meth(g, 'insert', *[lift(i) for i in keys[k]], lift(n), lift(10 + n % 2), box, lift(t))
                b = table[keys[k]]
                want = [m for m, s in seen.get(b, []) if s == t]
                seen.setdefault(b, []).append((n, t))
                got = items(W, out)
                ids = [int(num(items(W, o)[0])) for o in got]
                r.fact('insertion %d of history %d returns the earlier objects of the cell' % (n, h), ids == want, f, 'returns %s instead of %s' % (ids, want))
                for o in got:
                    o = items(W, o)
                    r.fact('returned object of history %d carries triangle, body and box (%d)' % (h, n), len(o) == 3 and int(num(o[1])) == int(num(o[0])) % 2 + 10 and getattr(o[2], 'name', None) == 'box%d' % int(num(o[0])), f, 'entry %s' % (o,))
    W = world(r)
    f = W.fn(SH + 'HashGird.get_prefect_hash_value')
    with r.section('hash of a cell', f):
        g = W.new(SH + 'HashGird')
        i = [tm.sym(x) for x in 'ijk']
        a = W.meth(g, 'get_prefect_hash_value', *i)
        b = W.meth(g, 'get_prefect_hash_value', *i)
        r.eq('the hash of a cell is always the same', a, b, f)
    W = world(r)
    f = W.fn(SH + 'HashGird.set_hash_table_size')
    with r.section('sizes', f, total=True):
        g = W.new(SH + 'HashGird')
        W.meth(g, 'set_hash_table_size', tm.sym('n'))
        W.meth(g, 'increment_hash_table_size', tm.sym('m'))
        W.meth(g, 'set_cell_size', tm.sym('c'))
        r.eq('hash table size', W.get(g, 'hash_table_size'), tm.sym('n') + tm.sym('m'), f)
        r.eq('cell size', W.get(g, 'cell_size'), tm.sym('c'), f)
    for tri in ([[0, 1, 2]], [[0, 1, 2], [3, 1, 4], [4, 0, 2]]):
        W = world(r)
        f = W.fn(SH + 'HashGird.compute_optial_cell_size')
        with r.section('cell size', f, total=True):
            P = V('V', (5, 3))
            cls = W.ip.find_class(SH + 'HashGird')
            got = W.ip.call(W.ip.getattr(cls, 'compute_optial_cell_size', W.st), [A(W, P), ints(W, tri)], {}, W.st)
            L = [norm(P[t[j]] - P[t[(j + 1) % 3]]) for t in tri for j in range(3)]
            s = ZERO
            for x in L:
                s = s + x
            r.eq('cell size is 2.2 times the mean edge length (%d triangles)' % len(tri), got, s / len(L) * 11 / 5, f)


def boxes(r):
    W = world(r)
    f = W.fn(BB + '.create_from_vertices')
    for n in (1, 3, 4):
        with r.section('box of %d vertices' % n, f, total=True):
            P = V('P', (n, 3))
            cls = W.ip.find_class(BB)
            b = W.ip.call(W.ip.getattr(cls, 'create_from_vertices', W.st), [A(W, P)], {}, W.st)
            lo, hi = P[0], P[0]
            for p in P[1:]:
                lo = arr([tm.fmin(x, y) for x, y in zip(lo, p)])
                hi = arr([tm.fmax(x, y) for x, y in zip(hi, p)])
            eqv(r, 'lower corner of %d vertices' % n, W, W.get(b, 'min_point'), lo, f)
            eqv(r, 'upper corner of %d vertices' % n, W, W.get(b, 'max_point'), hi, f)
            eqv(r, 'vertices are kept (%d)' % n, W, A(W, P), P, f)
    for tag, bd in (('touching counts', None), ('boundary', tm.sym('d'))):
        W = world(r)
        f = W.fn(BB + '.is_overlap')
        with r.section('overlap ' + tag, f, total=True):
            l1, e1, l2, e2 = V('l', 3), V('e', 3), V('m', 3), V('f', 3)
            h1, h2 = arr([a + tm.absval(b) for a, b in zip(l1, e1)]), arr([a + tm.absval(b) for a, b in zip(l2, e2)])
            a, b = W.new(BB, A(W, l1), A(W, h1)), W.new(BB, A(W, l2), A(W, h2))
            cls = W.ip.find_class(BB)
            fo = W.ip.getattr(cls, 'is_overlap', W.st)
            kw = {} if bd is None else {'boundary': bd}
            d = ZERO if bd is None else 2 * bd
            want = TRUE
            for i in range(3):
                want = want & tm.le(l1[i], h2[i] + d) & tm.le(l2[i], h1[i] + d)
            care = TRUE if bd is None else tm.le(ZERO, bd)
            for x, y, o in ((a, b, 'ab'), (b, a, 'ba')):
                got = W.ip.call(fo, [x, y], dict(kw), W.st)
                if isinstance(got, bool):
                    got = TRUE if got else FALSE
                r.eq('boxes overlap exactly when all intervals meet (%s, %s)' % (tag, o), got, want, f, care=care)
            for x, lo, hi, nm in ((a, l1, h1, 'first'), (b, l2, h2, 'second')):
                eqv(r, 'overlap test keeps the %s box (%s) lower' % (nm, tag), W, W.get(x, 'min_point'), lo, f)
                eqv(r, 'overlap test keeps the %s box (%s) upper' % (nm, tag), W, W.get(x, 'max_point'), hi, f)
