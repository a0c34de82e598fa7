"""Reference algebra (the oracle side) and helpers shared by the rule modules."""
import numpy as np

from . import term as tm
from .term import T, B, TRUE, FALSE, ZERO, ONE, lift
from .ctx import World, V, RT, SR, RIGID_SCHEMA
from .values import *
from .load import Program, AnalysisBroken

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


def world(r, **kw):
    W = World(prog=program(), **kw)
    r.worlds.append(W)
    return W


PROFILING = [FALSE]


def profiling():
    """the profiling flag the simulators are called with: off, or either (R12)"""
    return PROFILING[0]


def gone(W, q, r):
    """the function an obligation is anchored at"""
    return W.fn(q)


# ---------------------------------------------------------------- reference algebra
def arr(xs):
    a = np.empty(np.shape(xs), dtype=object)
    for ix in np.ndindex(a.shape):
        v = xs
        for i in ix:
            v = v[i]
        a[ix] = v if isinstance(v, T) else lift(v)
    return a


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = s + x * y
    return s


def norm(a):
    return tm.sqrt(dot(a, a))


def cross(a, b):
    return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def matvec(M, v):
    return arr([dot(M[i], v) for i in range(len(M))])


def matmul(A, Bm):
    return arr([[dot(A[i], Bm[:, j]) for j in range(Bm.shape[1])] for i in range(A.shape[0])])


def star(v):
    return arr([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def eye(n):
    return arr([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def det3(M):
    return dot(M[0], cross(M[1], M[2]))


def qmul(a, b):
    av, bv = a[1:], b[1:]
    c = cross(av, bv)
    return arr([a[0] * b[0] - dot(av, bv)] + [a[0] * bv[i] + b[0] * av[i] + c[i] for i in range(3)])


def qconj(q):
    return arr([q[0], -q[1], -q[2], -q[3]])


def qmat(q):
    """rotation matrix of a unit quaternion (s,x,y,z)"""
    s, x, y, z = q
    return arr([[s * s + x * x - y * y - z * z, 2 * (x * y - s * z), 2 * (x * z + s * y)],
                [2 * (x * y + s * z), s * s - x * x + y * y - z * z, 2 * (y * z - s * x)],
                [2 * (x * z - s * y), 2 * (y * z + s * x), s * s - x * x - y * y + z * z]])


def qrot(q, v):
    return matvec(qmat(q), v)


def unit_hook(*prefixes):
    """interpretations in which the named symbol vectors (name[i]) have length one"""
    def hk(s, a):
        if a.op == 'sym' and not a.args[1:]:
            nm = a.args[0]
            if isinstance(nm, str) and nm.endswith(']'):
                p, i = nm[:-1].split('[', 1)
                if p in prefixes:
                    n = 4 if p.startswith('q') else 3
                    v = [s.basic(tm.sym('%s[%d]' % (p, j)).as_atom()) for j in range(n)]
                    l = sum(x * x for x in v) ** .5
                    if l < 1e-6:
                        return 1.0 if i == '0' else 0.0
                    return v[int(i)] / l
        return None
    return hk


def unit_rels(*prefixes):
    out = []
    for p in prefixes:
        n = 4 if p.startswith('q') else 3
        a = tm.sym('%s[0]' % p)
        t = ONE
        for j in range(1, n):
            x = tm.sym('%s[%d]' % (p, j))
            t = t - x * x
        out.append((a.as_atom(), t))
    return out


def pos_hook(*names):
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0] in names:
            return abs(s.basic(a)) + 1e-3
        return None
    return hk


def range_hook(name, lo, hi):
    def hk(s, a):
        if a.op == 'sym' and a.args[0] == name:
            u = (abs(s.basic(a)) - 0.3) / 1.7
            return lo + (hi - lo) * max(0.0, min(1.0, u))
        return None
    return hk


def cells(W, v):
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, list) and all(isinstance(x, T) for x in v):
        return np.array(v, dtype=object)
    if isinstance(v, (Lst, tuple, list)):
        v = W.ip.np.n_array([v], {}, W.st)
    return W.ip.cells(v, W.st)


def eqv(r, name, W, got, want, where, **kw):
    """element-wise equality of arrays"""
    try:
        g = cells(W, got)
    except (Unsupported, TypeError, AttributeError) as e:
        r.undecided(name, where, 'not an array: %s %s' % (type(got).__name__, e))
        return False
    want = np.asarray(want, dtype=object)
    if g.shape != want.shape:
        return r.fact(name + ' shape', False, where, 'shape %s instead of %s' % (g.shape, want.shape))
    ok = True
    for ix in np.ndindex(want.shape):
        ok &= bool(r.eq('%s%s' % (name, list(ix)), g[ix], want[ix], where, **kw))
    return ok


def A(W, c):
    """new array value holding cells"""
    return W.ip.arr(np.asarray(c, dtype=object), W.st)


def D(x, wrt):
    """partial derivative of a value number with respect to a symbol"""
    return tm.diff(x, {wrt.as_atom(): ONE})


def instance(W, v, hooks, seed=1):
    """the array v evaluated in one interpretation whose extents are concrete (Sizes hook); None when it has no such value"""
    s = tm.Sample(seed, hooks=hooks)
    return instance_in(W, v, s)


def instance_in(W, v, s):
    if isinstance(v, SArr):
        shape = tuple(s.integer(lift(d)) for d in v.shape)
        out = np.zeros(shape)
        hole = tuple(tm.sym('κ%d' % i) for i in range(len(shape)))
        x = None
        for ix in np.ndindex(*shape):
            out[ix] = s.T(W.ip.sel(v, tuple(lift(i) for i in ix), W.st))
        return out
    c = cells(W, v)
    out = np.zeros(c.shape)
    for ix in np.ndindex(*c.shape):
        out[ix] = s.T(c[ix])
    return out


def items(W, v):
    """the elements of a collection of known content"""
    if isinstance(v, (Lst, Dct)):
        c = W.ip.content(v.oid, W.st)
        n = W.ip.np.length(v, W.st)
        n = n.const() if isinstance(n, T) else n
        if c.stores and n is not None:
            return [W.ip.np.list_get(v, lift(i), W.st) for i in range(int(n))]
    out = []
    for seg in W.ip.np.iterate(v, W.st):
        if seg[0] != 'c' or not tm.implies(W.st.pc, seg[1]):
            raise Unsupported('collection of unknown content')
        out.append(seg[2])
    return out
