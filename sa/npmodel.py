"""Transfer functions for Python builtins, numpy, scipy.sparse and containers."""
import ast
import itertools
import posixpath
from fractions import Fraction
import numpy as np

from . import term as tm
from .term import T, B, TRUE, FALSE, ZERO, ONE, lift
from .values import *

FULL = Slc(None, None, None)


def ip_const(v):
    return (TRUE if v else FALSE) if isinstance(v, bool) else v


class Sy:
    """read-only symbolic array: shape with >=1 symbolic extents, fn(idx tuple of T) -> T"""
    __slots__ = ('shape', 'fn')

    def __init__(self, shape, fn):
        self.shape, self.fn = tuple(shape), fn


class IMap:
    """view of a symbolic buffer.  axes: for every buffer axis ('fix', T) | ('ax', viewaxis, offset T|None)"""

    def __init__(self, axes, under=None):
        self.axes, self.under = axes, under

    def __call__(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            elif a[2] is None and len(a) < 4:
                out.append(idx[a[1]])
            else:
                t = idx[a[1]] if len(a) < 4 else lift(a[3]) * idx[a[1]]
                out.append(t if a[2] is None else a[2] + t)
        out = tuple(out)
        return self.under(out) if self.under else out


class ReIMap:
    """flat buffer of c*n cells seen as (n, c)"""

    def __init__(self, c, under):
        self.c, self.under = c, under

    def __call__(self, idx):
        out = (lift(self.c) * idx[0] + idx[1],)
        return self.under(out) if self.under else out


class FlatIMap:
    """(n, c) buffer seen as flat"""

    def __init__(self, c, under, model):
        self.c, self.under, self.model = c, under, model

    def __call__(self, idx):
        d = self.model.divmod_const(idx[0], self.c)
        if d is None:
            q, r = tm.app('fdiv', idx[0], self.c), tm.app('fmod', idx[0], self.c)
        else:
            q, r = d
            r = lift(r)
        out = (q, r)
        return self.under(out) if self.under else out


def cint(x):
    """python int of a constant term"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, T):
        c = x.const()
        if c is not None and isinstance(c, int):
            return c
    return None


BINOPS = {
    'Add': lambda a, b: a + b,
    'Sub': lambda a, b: a - b,
    'Mult': lambda a, b: a * b,
    'Div': lambda a, b: a / b,
    'Pow': lambda a, b: tm.power(a, b),
}

SCALAR_FUNS = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'exp': 'exp',
    'log': 'log', 'log2': 'log2', 'log10': 'log10', 'floor': 'floor', 'ceil': 'ceil', 'sign': 'sign', 'sinh': 'sinh', 'cosh': 'cosh',
    'tanh': 'tanh', 'rint': 'rint', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan',
}

NOOPS = {'builtins.print', 'numpy.set_printoptions', 'numpy.seterr', 'warnings.warn', 'numpy.random.seed'}

IDENT_DECOR = {'numba.njit', 'numba.jit'}


class Model:
    def __init__(self, ip):
        self.ip = ip
        self.boolarrs = set()
        self.factories = {}

    # -- reading ---------------------------------------------------------
    def num(self, v, st):
        if isinstance(v, T):
            return v
        if isinstance(v, B):
            return self.ip.b2t(v)
        if isinstance(v, (bool, int, float)):
            return lift(v)
        if isinstance(v, (Arr, View)):
            c = self.ip.cells(v, st)
            if c.size == 1:
                return c.ravel()[0]
            raise Unsupported('array as scalar')
        if isinstance(v, Opq):
            return tm.app('val', v.key)
        if isinstance(v, Choice):
            r = None
            for g, x in reversed(v.alts):
                if x is None or x is UNBOUND:
                    continue
                y = self.num(x, st)
                r = y if r is None else tm.ite(g, y, r)
            if r is None:
                raise Dead()
            return r
        if v is None:
            raise Dead()
        if isinstance(v, str):
            return tm.app('strval', v)
        raise Unsupported('number from %r' % (v,))

    def rd(self, v, st):
        """-> object ndarray (possibly 0-d) or Sy"""
        if isinstance(v, (T, B, bool, int, float)):
            a = np.empty((), dtype=object)
            a[()] = self.num(v, st)
            return a
        if isinstance(v, (Arr, View)):
            return np.asarray(self.ip.cells(v, st), dtype=object)
        if isinstance(v, SArr):
            c = self.ip.content(v.oid, st)
            im = v.imap
            ip = self.ip
            return Sy(v.shape, (lambda idx: ip.sel_content(c, im(idx))) if im else (lambda idx: ip.sel_content(c, idx)))
        if isinstance(v, (tuple, Lst)):
            return self.seq_array(v, st)
        if isinstance(v, Choice):
            vals = [(g, self.rd(x, st)) for g, x in v.alts if x is not None and not isinstance(x, Opq)]
            unk = [(g, x) for g, x in v.alts if isinstance(x, Opq)]
            if not vals and not unk:
                raise Dead()
            if not vals:
                return self.rd(unk[-1][1], st)
            sh = vals[-1][1].shape
            for g, x in unk:
                fn = lambda idx, x=x: tm.app('sel', x.key, *idx)
                if isinstance(vals[-1][1], Sy):
                    vals.insert(0, (g, Sy(sh, fn)))
                elif sh == ():
                    vals.insert(0, (g, self.rd(x, st)))
                else:
                    o = np.empty(sh, dtype=object)
                    for i in np.ndindex(sh):
                        o[i] = fn(tuple(lift(j) for j in i))
                    vals.insert(0, (g, o))
            r = vals[-1][1]
            for g, x in reversed(vals[:-1]):
                if isinstance(x, np.ndarray) and isinstance(r, np.ndarray) and x.shape == r.shape:
                    o = np.empty(x.shape, dtype=object)
                    for i in np.ndindex(x.shape):
                        o[i] = tm.ite(g, x[i], r[i])
                    r = o
                elif isinstance(x, Sy) and isinstance(r, Sy):
                    r = Sy(x.shape, lambda idx, x=x, r=r, g=g: tm.ite(g, x.fn(idx), r.fn(idx)))
                else:
                    raise Unsupported('choice of arrays %r' % [(type(y).__name__, getattr(y,'shape',None)) for _, y in vals])
            return r
        if isinstance(v, It):
            return self.seq_array(self.to_list(v, st), st)
        if isinstance(v, Rng):
            return self.seq_array(tuple(x for _, _, x in [s for s in self.iterate(v, st)]), st)
        if isinstance(v, Opq):
            a = np.empty((), dtype=object)
            a[()] = self.num(v, st)
            return a
        raise Unsupported('array from %r' % (v,))

    def seq_array(self, v, st):
        if isinstance(v, tuple):
            items = list(v)
        else:
            c = self.ip.content(v.oid, st)
            if c.base is not None or c.stores or any(s.kind == 's' for s in c.segs):
                return self.seq_sym(v, c, st)
            if any(s.guard is not TRUE for s in c.segs):
                raise Unsupported('conditional list as array')
            items = [s.value for s in c.segs]
        rs = [self.rd(x, st) for x in items]
        if not rs:
            return np.empty((0,), dtype=object)
        if any(isinstance(r, Sy) for r in rs):
            n = len(rs)
            sh = rs[0].shape
            return Sy((n,) + tuple(sh), lambda idx: self.pick_list([self.at(r, idx[1:]) for r in rs], idx[0]))
        sh = rs[0].shape
        if any(r.shape != sh for r in rs):
            raise Unsupported('ragged list')
        out = np.empty((len(rs),) + sh, dtype=object)
        for i, r in enumerate(rs):
            out[i] = r[()] if r.shape == () else r
        return out

    def seq_sym(self, v, c, st):
        ip = self.ip
        n = self.length(v, st)
        probe = st.fork()
        e = self.getitem(v, lift(tm.atom('sym', 'ιprobe')), probe)
        r = self.rd(e, probe)
        sh = r.shape
        frozen = st.fork()

        def fn(idx):
            s2 = frozen.fork()
            e = self.getitem(v, idx[0], s2)
            return self.at(self.rd(e, s2), idx[1:])
        return Sy((n,) + tuple(sh), fn)

    def seq_iter(self, seg, st):
        """one array per round of an iteration -> the stack of them"""
        probe = st.fork()
        e = seg[2](lift(tm.atom('sym', 'ιprobe')), probe)
        if not isinstance(e, (T, tuple, Lst)) and not self.isarr(e):
            return None
        r = self.rd(e, probe)
        frozen = st.fork()

        def fn(idx):
            s2 = frozen.fork()
            return self.at(self.rd(seg[2](idx[0], s2), s2), idx[1:])
        return Sy((seg[1],) + tuple(r.shape), fn)

    def at(self, r, idx):
        if isinstance(r, Sy):
            return r.fn(tuple(lift(i) for i in idx))
        ci = [cint(i) for i in idx]
        if all(i is not None for i in ci):
            return r[tuple(ci)]
        return self.pick_nd(r, idx)

    def pick_nd(self, r, idx):
        if len(idx) == 0:
            return r[()] if isinstance(r, np.ndarray) and r.shape == () else r
        i = cint(idx[0])
        if i is not None:
            return self.pick_nd(r[i], idx[1:])
        return self.pick_list([self.pick_nd(r[j], idx[1:]) for j in range(len(r))], idx[0])

    def pick_list(self, xs, i):
        c = cint(i)
        if not xs:
            return tm.app('outside', lift(i))      # an entry that does not exist
        if c is not None:
            return xs[c]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = tm.ite(tm.eqB(i, lift(j)), xs[j], r)
        return r

    def wrap(self, r, st, bkey=None):
        if isinstance(r, Sy):
            if all(cint(d) is not None for d in r.shape):
                sh = tuple(cint(d) for d in r.shape)
                if int(np.prod(sh)) <= 4096:
                    out = np.empty(sh, dtype=object)
                    for i in np.ndindex(*sh):
                        out[i] = r.fn(tuple(lift(j) for j in i))
                    return self.wrap(out, st)
            return self.ip.sarr(r.fn, r.shape, st, bkey)
        if isinstance(r, T):
            return r
        if r.shape == ():
            return r[()]
        return self.ip.arr(r, st)

    def deq(self, a, b):
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None or cb is not None:
            return False
        return a is b

    def bshape(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            d = 1
            for s in shapes:
                j = len(s) - n + i
                if j < 0:
                    continue
                x = s[j]
                if cint(x) == 1:
                    continue
                if cint(d) == 1:
                    d = x
                elif not self.deq(d, x):
                    # trust the program: symbolic extents that must agree at run time
                    if cint(d) is not None and cint(x) is not None:
                        raise Unsupported('broadcast %r' % (shapes,))
                    if cint(x) is not None:
                        d = x
            out.append(d)
        return tuple(out)

    def emap(self, f, st, *vals, raw=False):
        rs = [self.rd(v, st) if not isinstance(v, (np.ndarray, Sy)) else v for v in vals]
        if any(isinstance(r, Sy) for r in rs):
            sh = self.bshape([r.shape for r in rs])

            def fn(idx):
                xs = []
                for r in rs:
                    k = len(r.shape)
                    ii = idx[len(idx) - k:] if k else ()
                    ii = tuple(ZERO if cint(d) == 1 else i for d, i in zip(r.shape, ii))
                    xs.append(self.at(r, ii))
                return f(*xs)
            res = Sy(sh, fn)
        else:
            try:
                bs = np.broadcast_arrays(*rs) if len(rs) > 1 else rs
            except ValueError:
                raise Unsupported('shape mismatch %s' % ([r.shape for r in rs],))
            res = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(bs[0].shape):
                res[i] = f(*[b[i] for b in bs])
        return res if raw else self.wrap(res, st)

    def isarr(self, v):
        return isinstance(v, (Arr, View, SArr))

    # -- arithmetic --------------------------------------------------------
    def divmod_const(self, t, c):
        """t = c*q + r with constant r if that is visible"""
        t = lift(t)
        r0 = t.m.get((), 0)
        if not isinstance(r0, int):
            return None
        q = ZERO
        for k, co in t.m.items():
            if k == ():
                continue
            if not isinstance(co, int) or co % c:
                return None
            q = q + tm.mk({k: co // c})
        return q + lift(r0 // c), r0 % c

    def scalar_op(self, op, a, b):
        if op in BINOPS:
            return BINOPS[op](a, b)
        if op == 'FloorDiv':
            cb = cint(b)
            if cb:
                d = self.divmod_const(a, cb)
                if d is not None and (d[0].const() is not None or all(self.ip.is_int_atom(x) for x in d[0].shallow())):
                    return d[0]
            return tm.fun('floor', a / b)
        if op == 'Mod':
            cb = cint(b)
            if cb:
                d = self.divmod_const(a, cb)
                if d is not None and (d[0].const() is not None or all(self.ip.is_int_atom(x) for x in d[0].shallow())):
                    return lift(d[1])
            ca, cb2 = a.const(), b.const()
            if ca is not None and cb2 is not None:
                return lift(ca % cb2)
            return tm.app('mod', a, b)
        if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None:
                return lift({'LShift': ca << cb, 'RShift': ca >> cb, 'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[op])
            if op in ('BitAnd', 'BitOr', 'BitXor') and self.is_bool_cell(a) and self.is_bool_cell(b):
                x, y = ~tm.eq0(a), ~tm.eq0(b)
                return self.ip.b2t(x & y if op == 'BitAnd' else x | y if op == 'BitOr' else tm.bite(x, ~y, y))
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = sorted((a, b), key=lambda t: t.id)
                return tm.app(op.lower(), x, y)
            return tm.app(op.lower(), a, b)
        raise Unsupported('operator %s' % op)

    def binop(self, op, a, b, st):
        ip = self.ip
        if isinstance(a, Choice) and not self.choice_numeric(a):
            return ip.mapchoice(a, lambda x, s: self.binop(op, x, b, s), st)
        if isinstance(b, Choice) and not self.choice_numeric(b):
            return ip.mapchoice(b, lambda x, s: self.binop(op, a, x, s), st)
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.matop(op, a, b, st)
        if op == 'MatMult':
            return self.matmul(a, b, st)
        if isinstance(a, T) and isinstance(b, T):
            return self.scalar_op(op, a, b)
        if isinstance(a, B) and isinstance(b, B) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return a & b if op == 'BitAnd' else (a | b if op == 'BitOr' else tm.bite(a, ~b, b))
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Mod' and (isinstance(a, str) or (isinstance(a, Opq) and a.ty == 'str')):
            return Opq(('fmt', ip.key(a, st), ip.key(b, st)), 'str')
        if op == 'Add' and (isinstance(a, str) or isinstance(b, str)) and isinstance(a, (str, Opq)) and isinstance(b, (str, Opq)):
            return Opq(('concat', ip.key(a, st), ip.key(b, st)), 'str')
        if op == 'Mult' and isinstance(a, str):
            n = cint(b)
            return a * n if n is not None else Opq(('repeat', a, b), 'str')
        if isinstance(a, (Lst, tuple)) and isinstance(b, (Lst, tuple)) and op == 'Add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            ca = ip.content(a.oid, st) if isinstance(a, Lst) else LContent(None, [Seg('e', TRUE, x) for x in a])
            cb = ip.content(b.oid, st) if isinstance(b, Lst) else LContent(None, [Seg('e', TRUE, x) for x in b])
            oid = ip.new_oid()
            if cb.base is not None:
                segs = ca.segs + (self.coll_seg(cb.base, st),) + cb.segs
            else:
                segs = ca.segs + cb.segs
            st.heap[oid] = LContent(ca.base, segs, ca.stores)
            return Lst(oid)
        if isinstance(a, (Lst, tuple)) and op == 'Mult':
            n = cint(b)
            if isinstance(a, tuple) and n is not None:
                return a * n
            c = ip.content(a.oid, st)
            oid = ip.new_oid()
            if n is not None and c.base is None:
                st.heap[oid] = LContent(None, tuple(c.segs) * n)
            elif len(c.segs) == 1 and c.base is None:
                k = tm.atom('sym', 'ιrep')
                st.heap[oid] = LContent(None, (Seg('s', TRUE, (ip.freeze(c.segs[0].value, st), 'e', None, None), k, self.num(b, st)),))
            else:
                raise Unsupported('list repeat')
            return Lst(oid)
        if op in ('Sub', 'BitAnd', 'BitOr', 'BitXor') and isinstance(a, Lst) and a.kind == 'set':
            return self.setop(op, a, [b], st)
        if isinstance(a, Opq) or isinstance(b, Opq):
            o = a if isinstance(a, Opq) else b
            other = b if o is a else a
            if o.ty == 'num' or (isinstance(other, (T, B)) and o.ty != 'arr') or self.isarr(other):
                if o.ty == 'num' or self.isarr(other) or True:
                    if self.isarr(other) or (isinstance(other, (T, B)) or (isinstance(other, Opq) and other.ty == 'num')):
                        if o.ty == 'num' or self.isarr(other) is False:
                            try:
                                return self.emap(lambda x, y: self.scalar_op(op, x, y), st, a, b)
                            except Unsupported:
                                pass
            return Opq(('op', op, ip.key(a, st), ip.key(b, st)))
        r = self.emap(lambda x, y: self.scalar_op(op, x, y), st, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and all(x.oid in self.boolarrs for x in (a, b) if isinstance(x, (Arr, View))):
            self.tag_bool(r)
        return r

    def choice_numeric(self, c):
        return False

    def inplace(self, op, cur, v, st):
        ip = self.ip
        if isinstance(cur, Choice):
            return ip.mapchoice(cur, lambda x, s: self.inplace(op, x, v, s), st)
        if isinstance(cur, (Arr, View)):
            r = self.emap(lambda x, y: self.scalar_op(op, x, y), st, cur, v, raw=True) if op != 'MatMult' else self.rd(self.matmul(cur, v, st), st)
            if isinstance(r, Sy):
                raise Unsupported('inplace with symbolic rhs')
            if r.shape != cur.shape:
                raise Unsupported('inplace shape')
            ip.write(cur, r, st)
            return cur
        if isinstance(cur, SArr):
            r = self.emap(lambda x, y: self.scalar_op(op, x, y), st, cur, v, raw=True)
            self.store_all(cur, r, st)
            return cur
        if isinstance(cur, Lst) and op == 'Add':
            self.list_extend(cur, v, st)
            return cur
        return self.binop(op, cur, v, st)

    def unop(self, op, a, st):
        if isinstance(a, Choice):
            return self.ip.mapchoice(a, lambda x, s: self.unop(op, x, s), st)
        if isinstance(a, Mat):
            if op == 'USub':
                return Mat('neg', (a,), a.shape)
            return a
        if op == 'USub':
            if isinstance(a, Opq):
                return Opq(('neg', a.key), a.ty)
            return self.emap(lambda x: -x, st, a)
        if op == 'UAdd':
            return a
        if op == 'Invert':
            if isinstance(a, B):
                return ~a
            if isinstance(a, Opq):
                return Opq(('inv~', a.key))
            return self.tag_bool(self.emap(lambda x: self.ip.b2t(tm.eq0(x)), st, a))
        raise Unsupported('unary %s' % op)

    def cmp_scalar(self, op, a, b):
        if op == 'Lt':
            return tm.lt(a, b)
        if op == 'Gt':
            return tm.lt(b, a)
        if op == 'LtE':
            return tm.le(a, b)
        if op == 'GtE':
            return tm.le(b, a)
        if op == 'Eq':
            return tm.eqB(a, b)
        if op == 'NotEq':
            return ~tm.eqB(a, b)
        raise Unsupported(op)

    def compare(self, op, a, b, st):
        ip = self.ip
        if isinstance(a, Choice):
            return self.cmp_choice(a, lambda x, s: self.compare(op, x, b, s), st)
        if isinstance(b, Choice):
            return self.cmp_choice(b, lambda x, s: self.compare(op, a, x, s), st)
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b, st)
            return r if op == 'Is' else ~r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            return r if op == 'In' else ~r
        if isinstance(a, T) and isinstance(b, T):
            return self.cmp_scalar(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op in ('Lt', 'LtE', 'Gt', 'GtE'):
            return ip.const({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op])
        if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)) and isinstance(a, tuple) == isinstance(b, tuple):
            xs, ys = self.explicit_seq(a, st), self.explicit_seq(b, st)
            if xs is not None and ys is not None:
                if op in ('Eq', 'NotEq'):
                    if not isinstance(a, tuple):
                        r = self.keyeq(tuple(xs), tuple(ys), st)
                        return r if op == 'Eq' else ~r
                else:
                    return self.lexicographic(op, xs, ys, st)
        if op in ('Eq', 'NotEq'):
            if isinstance(a, (str, tuple, Opq, Obj, Cls, Ext)) or isinstance(b, (str, tuple, Opq, Obj, Cls, Ext)) or a is None or b is None or (isinstance(a, B) and isinstance(b, B)):
                r = self.keyeq(a, b, st)
                return r if op == 'Eq' else ~r
            if isinstance(a, (Lst, Dct)) or isinstance(b, (Lst, Dct)):
                if not (self.isarr(a) or self.isarr(b)):
                    ka, kb = ip.key(a, st), ip.key(b, st)
                    r = TRUE if ka == kb else self.same_members(a, b, st)
                    if r is None:
                        r = tm.pred('keyeq', ka, kb)
                    return r if op == 'Eq' else ~r
        if isinstance(a, (Opq, str)) or isinstance(b, (Opq, str)) or isinstance(a, (Obj, Lst)) or isinstance(b, (Obj, Lst)):
            if (isinstance(a, Opq) and isinstance(b, (T, Opq))) or (isinstance(b, Opq) and isinstance(a, T)):
                return self.cmp_scalar(op, self.num(a, st), self.num(b, st))
            if not (self.isarr(a) or self.isarr(b)):
                return tm.pred('cmp', op, ip.key(a, st), ip.key(b, st))
        if a is None or b is None:
            raise Dead()
        r = self.emap(lambda x, y: ip.b2t(self.cmp_scalar(op, x, y)), st, a, b, raw=True)
        if isinstance(r, np.ndarray) and r.shape == ():
            return ~tm.eq0(r[()])
        return self.tag_bool(self.wrap(r, st))

    def explicit_seq(self, v, st):
        """the items of a tuple or a list all of whose items are known"""
        if isinstance(v, tuple):
            return list(v)
        if v.kind == 'set':
            return None
        c = self.ip.content(v.oid, st)
        if c.base is not None or c.stores or any(s.kind != 'e' or s.guard is not TRUE for s in c.segs):
            return None
        return [s.value for s in c.segs]

    def lexicographic(self, op, xs, ys, st):
        """order of two sequences: the first difference decides, then the length"""
        n = min(len(xs), len(ys))
        r = self.ip.const({'Lt': len(xs) < len(ys), 'LtE': len(xs) <= len(ys), 'Gt': len(xs) > len(ys), 'GtE': len(xs) >= len(ys)}[op])
        for x, y in reversed(list(zip(xs[:n], ys[:n]))):
            same = self.keyeq(x, y, st)
            if same is TRUE:
                continue
            r = tm.bite(same, r, self.ip.truth(self.compare(op[:2], x, y, st), st))
        return r

    def tag_bool(self, v):
        """remember that an array holds truth values (a mask, even when all of its cells are known)"""
        if isinstance(v, (Arr, View)):
            self.boolarrs.add(v.oid)
        return v

    def same_members(self, a, b, st):
        """equality of two sets of known members"""
        if not all(isinstance(x, Lst) and x.kind == 'set' for x in (a, b)):
            return None
        ca, cb = (self.ip.content(x.oid, st) for x in (a, b))
        if any(c.base is not None or c.stores or any(s.kind != 'e' for s in c.segs) for c in (ca, cb)):
            return None
        r = TRUE
        for c, other in ((ca, b), (cb, a)):
            for s in c.segs:
                r = r & (~s.guard | self.contains(other, s.value, st))
        return r

    def cmp_choice(self, ch, f, st):
        r = FALSE
        for g, x in ch.alts:
            if (st.pc & g) is FALSE:
                continue
            try:
                s2 = st.fork(st.pc & g)
                v = f(x, s2)
            except Dead:
                continue
            r = r | (g & self.ip.truth(v, st))
        return r

    def is_same(self, a, b, st):
        ip = self.ip
        if a is None and b is None:
            return TRUE
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Opq):
                if o.ty is not None or (isinstance(o.key, tuple) and o.key and o.key[0] in ('notnone', 'key')):
                    return FALSE
                return tm.pred('isnone', o.key)
            return FALSE
        if ip.same(a, b):
            return TRUE
        if isinstance(a, B) and isinstance(b, B):
            return tm.bite(a, b, ~b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.keyeq(a, b, st)
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            return FALSE
        return tm.pred('is', ip.key(a, st), ip.key(b, st))

    def keyeq(self, a, b, st):
        ip = self.ip
        if ip.same(a, b):
            return TRUE
        if isinstance(a, T) and isinstance(b, T):
            return tm.eqB(a, b)
        if isinstance(a, B) and isinstance(b, B):
            return tm.bite(a, b, ~b)
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for x, y in zip(a, b):
                r = r & self.keyeq(x, y, st)
            return r
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.lazy and b.lazy and a.lazy[0] == 'coll' and b.lazy[0] == 'coll':
                if a.lazy[1] == b.lazy[1]:
                    return tm.eqB(a.lazy[2], b.lazy[2])
                return FALSE
            return FALSE
        if a is None or b is None:
            return self.is_same(a, b, st)
        if isinstance(a, Opq) and isinstance(b, Opq) and isinstance(a.key, tuple) and isinstance(b.key, tuple) and a.key[:1] == ('key',) and b.key[:1] == ('key',) and a.key[1] == b.key[1]:
            return tm.eqB(a.key[2], b.key[2])
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.compare('Eq', a, b, st)
        ka, kb = ip.key(a, st), ip.key(b, st)
        if ka == kb:
            return TRUE
        if isinstance(a, (Obj, Cls, Ext)) and isinstance(b, (Obj, Cls, Ext, str)):
            return FALSE
        x, y = sorted((ka, kb), key=repr)
        return tm.pred('keyeq', x, y)

    def contains(self, c, x, st):
        ip = self.ip
        if isinstance(c, tuple):
            r = FALSE
            for y in c:
                r = r | self.keyeq(x, y, st)
            return r
        if isinstance(c, (Lst, Dct)):
            L = ip.content(c.oid, st)
            r = FALSE
            if L.base is not None:
                if isinstance(x, Opq) and isinstance(x.key, tuple) and x.key[:2] == ('key', L.base.name):
                    r = TRUE
                elif isinstance(x, Obj) and x.lazy and x.lazy[0] == 'coll' and x.lazy[1] == L.base.name:
                    r = TRUE
                else:
                    r = tm.pred('in', L.base.name, ip.key(x, st))
            for s in L.segs:
                if s.kind == 'e':
                    y = s.key if isinstance(c, Dct) else s.value
                    r = r | (s.guard & self.keyeq(x, y, st))
                else:
                    r = r | tm.pred('inseg', ip.key(c, st), ip.key(x, st))
            return r
        if isinstance(c, It):
            r = FALSE
            for s in c.segs:
                if s[0] == 'c':
                    r = r | (s[1] & self.keyeq(x, s[2], st))
                else:
                    r = r | tm.pred('initer', ip.key(c, st), ip.key(x, st))
            return r
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        if isinstance(c, Rng):
            v = self.num(x, st)
            return tm.le(self.num(c.a, st), v) & tm.lt(v, self.num(c.b, st))
        return tm.pred('in', ip.key(c, st), ip.key(x, st))

    # -- matrix products ----------------------------------------------------
    def matmul(self, a, b, st):
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.matop('MatMult', a, b, st)
        if isinstance(a, Choice):
            return self.ip.mapchoice(a, lambda x, s: self.matmul(x, b, s), st)
        if isinstance(b, Choice):
            return self.ip.mapchoice(b, lambda x, s: self.matmul(a, x, s), st)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq(('op', 'MatMult', self.ip.key(a, st), self.ip.key(b, st)))
        x, y = self.rd(a, st), self.rd(b, st)
        return self.wrap(self.mm(x, y), st)

    def mm(self, x, y):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.ndim == 0 or y.ndim == 0:
                raise Unsupported('matmul of scalars')
            if x.ndim <= 2 and y.ndim <= 2:
                if x.shape[-1] != y.shape[0]:
                    raise Unsupported('matmul shapes %s %s' % (x.shape, y.shape))
                X = x if x.ndim == 2 else x[None, :]
                Y = y if y.ndim == 2 else y[:, None]
                out = np.empty((X.shape[0], Y.shape[1]), dtype=object)
                for i in range(X.shape[0]):
                    for j in range(Y.shape[1]):
                        s = ZERO
                        for k in range(X.shape[1]):
                            s = s + X[i, k] * Y[k, j]
                        out[i, j] = s
                if x.ndim == 1:
                    out = out[0]
                if y.ndim == 1:
                    out = out[..., 0]
                if isinstance(out, T):
                    o = np.empty((), dtype=object)
                    o[()] = out
                    return o
                return out
        # general (batched / symbolic)
        sx, sy = tuple(x.shape), tuple(y.shape)
        vx, vy = len(sx) == 1, len(sy) == 1
        bx = sx[:-2] if not vx else ()
        by = sy[:-2] if not vy else ()
        bs = self.bshape([bx, by]) if (bx or by) else ()
        K = sx[-1]
        K2 = sy[-2] if not vy else sy[-1]
        if cint(K) is None:
            K = K2 if cint(K2) is not None else K
        sh = bs + (() if vx else (sx[-2],)) + (() if vy else (sy[-1],))

        def fn(idx):
            nb = len(bs)
            bi = idx[:nb]
            rest = list(idx[nb:])
            i = None if vx else rest.pop(0)
            j = None if vy else rest.pop(0)

            def sub(s, bsh):
                bb = bi[nb - len(bsh):] if bsh else ()
                return tuple(ZERO if cint(d) == 1 else q for d, q in zip(bsh, bb))

            def term(k):
                xi = sub(x, bx) + (() if vx else (i,)) + (k,)
                yi = sub(y, by) + (k,) + (() if vy else (j,))
                return self.at(x, xi) * self.at(y, yi)
            kk = cint(K)
            if kk is not None:
                s = ZERO
                for k in range(kk):
                    s = s + term(lift(k))
                return s
            return self.bound_sum(K, term)
        if not sh:
            return np.array(fn(()), dtype=object).reshape(()) if False else self.scal(fn(()))
        return Sy(sh, fn)

    def scal(self, t):
        o = np.empty((), dtype=object)
        o[()] = t
        return o

    def bound(self, f):
        """evaluate f at a bound index and pick a canonical bound atom not free in the body"""
        self.ip.fresh += 1
        tmp = tm.atom('sym', 'ιtmp%d' % self.ip.fresh)
        g = f(lift(tmp))
        ats = g.atoms()
        j = 0
        while tm.atom('sym', 'ιs%d' % j) in ats:
            j += 1
        k = tm.atom('sym', 'ιs%d' % j)
        return k, tm.subst(g, {tmp: lift(k)})

    def bound_sum(self, N, f):
        k, g = self.bound(f)
        return tm.mksum(k, lift(N), g)

    def matkey(self, m, st):
        return self.ip.key(m, st)

    def matop(self, op, a, b, st):
        ip = self.ip
        if op == 'MatMult' or (op == 'Mult' and isinstance(a, Mat) and (isinstance(b, Mat) or self.isarr(b))):
            if isinstance(a, Mat) and isinstance(b, Mat):
                x, y = self.cells_of(a, st), self.cells_of(b, st)
                if x is not None and y is not None:
                    return self.dense(self.mm(x, y), st)
                sh = (a.shape[0], b.shape[1]) if a.shape and b.shape else None
                return Mat('mul', (a, b), sh)
            if isinstance(a, Mat):
                return self.matvec(a, b, st)
            return Opq(('op', op, ip.key(a, st), ip.key(b, st)))
        if op == 'Mult':
            m, s = (a, b) if isinstance(a, Mat) else (b, a)
            x = self.cells_of(m, st)
            if x is not None and not isinstance(s, Mat):
                return self.dense(x * self.num(s, st), st)
            return Mat('scale', (m, self.num(s, st)), m.shape)
        if op == 'Div':
            x = self.cells_of(a, st) if isinstance(a, Mat) else None
            if x is not None and isinstance(b, (T, int, float)):
                return self.dense(x / self.num(b, st), st)
            return Mat('scale', (a, ONE / self.num(b, st)), a.shape)
        if op in ('Add', 'Sub'):
            x, y = (self.cells_of(v, st) if isinstance(v, Mat) else self.rd(v, st) if self.isarr(v) else None for v in (a, b))
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.ndim == y.ndim == 2:
                return self.dense(x + y if op == 'Add' else x - y, st)
            return Mat(op.lower(), (a, b), a.shape if isinstance(a, Mat) else b.shape)
        return Opq(('op', op, ip.key(a, st), ip.key(b, st)))

    def matvec(self, m, v, st):
        ip = self.ip
        if isinstance(v, Opq):
            return Opq(('matvec', ip.key(m, st), v.key), 'arr')
        r = self.rd(v, st)
        if m.kind == 'scale':
            x = self.matvec(m.args[0], v, st)
            return self.binop('Mult', m.args[1], x, st)
        if m.kind == 'neg':
            return self.unop('USub', self.matvec(m.args[0], v, st), st)
        if m.kind == 'mul':
            return self.matvec(m.args[0], self.matvec(m.args[1], v, st), st)
        if m.kind in ('add', 'sub'):
            return self.binop('Add' if m.kind == 'add' else 'Sub', self.matvec(m.args[0], v, st), self.matvec(m.args[1], v, st), st)
        if m.kind == 'dense' and not self.blocky(m.args[0], st):
            return self.matmul(m.args[0], v, st)
        if m.kind == 'eye':
            return v
        rows = m.shape[0] if m.shape else r.shape[0]
        mk, vk = ip.key(m, st), ip.intern(ip.key(v, st))
        frozen = st.fork()

        def fn(idx):
            i = idx[0]
            if m.kind == 'bdiag':
                d = self.divmod_const(i, 3)
                if d is not None and (d[0].const() is not None or not any(str(x).startswith('ιx') for x in d[0].shallow())):
                    j, rr = d
                    s2 = frozen.fork()
                    try:
                        blk = self.rd(self.getitem(m.args[0], j, s2), s2)
                    except Unsupported:
                        blk = None
                    if isinstance(blk, np.ndarray) and blk.shape == (3, 3):
                        s = ZERO
                        for c in range(3):
                            s = s + blk[rr, c] * self.at(r, (lift(3) * j + lift(c),))
                        return s
            if m.kind == 'triplets' or m.kind == 'dense':
                row = self.mat_row(m, i, frozen)
                if row is not None:
                    s = ZERO
                    for c, val in row:
                        s = s + val * self.at(r, (c,))
                    return s
            return tm.app('matvec', mk, vk, i)
        return self.wrap(Sy((rows,), fn), st)

    def mat_row(self, m, i, st):
        """entries (column, value) of row i of a matrix assembled from triplets, or None"""
        ip = self.ip
        if m.kind == 'dense':
            return self.mat_row_dense(m.args[0], i, st)
        data, row, col = m.args
        if all(isinstance(x, Lst) for x in m.args):
            return self.mat_row_lists(m, i, st)
        if not isinstance(row, SArr) or row.imap or data.imap or col.imap:
            return None
        cd, cr, cc = (ip.content(x.oid, st) for x in (data, row, col))
        if len(cr.stores) == 0 or any(x.bkey is None or x.bkey[0] != 'const' or x.bkey[1] is not ZERO for x in (cd, cr, cc)):
            return None
        out = []
        for s in cr.stores:
            if s.add or callable(s.value) or len(s.quants) != 1 or len(s.pattern) != 1 or s.pattern[0] is None:
                return None
            q = s.quants[0][0]
            e = ip.solve(s.value, q, i)
            if e is None:
                return None
            if e is False:
                continue
            pos = tm.subst(s.pattern[0], {q: e})
            g = tm.subst(s.guard, {q: e})
            v = ip.sel_content(cd, (pos,))
            c = ip.sel_content(cc, (pos,))
            out.append((c, v if g is TRUE else tm.ite(g, v, ZERO)))
        return out

    def blocky(self, x, st):
        """a symbolic matrix of zeros in which blocks were filled in"""
        if not isinstance(x, SArr) or x.imap or len(x.shape) != 2:
            return False
        c = self.ip.content(x.oid, st)
        return c.bkey is not None and c.bkey[0] == 'const' and c.bkey[1] is ZERO and len(c.stores) > 0 and \
            all(not callable(s.value) and len(s.pattern) == 2 and None not in s.pattern and len(s.quants) <= 1 for s in c.stores)

    def mat_row_dense(self, x, i, st):
        ip = self.ip
        if not self.blocky(x, st):
            return None
        out = []
        for s in ip.content(x.oid, st).stores:
            p, env = s.pattern[0], {}
            if s.quants:
                q = s.quants[0][0]
                e = ip.solve(p, q, i)
                if e is None:
                    return None
                if e is False:
                    continue
                env, g = {q: e}, s.guard
            else:
                g = s.guard & tm.eqB(p, lift(i))
                if g is FALSE:
                    continue
            g = tm.subst(g, env)
            col, v = tm.subst(s.pattern[1], env), tm.subst(s.value, env)
            if g is TRUE and not s.add:
                out = [(c, w) for c, w in out if c is not col]
            out.append((col, v if g is TRUE else tm.ite(g, v, ZERO)))
        return out

    def mat_row_lists(self, m, i, st):
        """the same for triplets in lists that were appended to together"""
        ip = self.ip
        cd, cr, cc = (ip.content(x.oid, st) for x in m.args)
        if any(c.base is not None or c.stores for c in (cd, cr, cc)) or not len(cd.segs) == len(cr.segs) == len(cc.segs):
            return None
        out = []
        for d, r, c in zip(cd.segs, cr.segs, cc.segs):
            if not (d.kind == r.kind == c.kind and d.guard is r.guard is c.guard and d.k is r.k is c.k and d.n is r.n is c.n):
                return None
            s2 = st.fork()
            if d.kind == 'e':
                g = d.guard & tm.eqB(self.num(r.value, s2), i)
                if g is not FALSE:
                    out.append((self.num(c.value, s2), tm.ite(g, self.num(d.value, s2), ZERO)))
                continue
            if any(x.value[1] != 'e' for x in (d, r, c)):
                return None
            e = ip.solve(self.num(ip.thaw(r.value[0], {r.k: lift(r.k)}, s2), s2), r.k, i)
            if e is None:
                return None
            if e is False:
                continue
            v = self.num(self.thaw_seg(d, e, s2), s2)
            g = tm.subst(d.guard, {d.k: e})
            out.append((self.num(self.thaw_seg(c, e, s2), s2), v if g is TRUE else tm.ite(g, v, ZERO)))
        return out

    # -- indexing -----------------------------------------------------------
    def norm_key(self, k, st):
        if not isinstance(k, tuple):
            k = (k,)
        return k

    def mask_of(self, k, st):
        """boolean mask array -> ndarray of B"""
        return None

    def slice_bounds(self, s, n, st):
        a = self.num(s.a, st) if s.a is not None else ZERO
        b = self.num(s.b, st) if s.b is not None else lift(n)
        ca, cb, cn = cint(a), cint(b), cint(n)
        if ca is not None and ca < 0:
            a = lift(n) + a
        if cb is not None and cb < 0:
            b = lift(n) + b
        return a, b

    def getitem(self, o, k, st):
        ip = self.ip
        if isinstance(o, Choice):
            return ip.mapchoice(o, lambda x, s: self.getitem(x, k, s), st)
        if isinstance(k, Choice):
            return ip.mapchoice(k, lambda x, s: self.getitem(o, x, s), st)
        if o is None:
            raise Dead()
        if isinstance(o, tuple):
            return self.tuple_get(o, k, st)
        if isinstance(o, str):
            i = cint(k)
            if i is not None:
                return o[i]
            if isinstance(k, Slc):
                a, b = (cint(k.a) if k.a is not None else None), (cint(k.b) if k.b is not None else None)
                return o[a:b]
            return Opq(('chr', o, ip.key(k, st)), 'str')
        if isinstance(o, Dct):
            if o.oid in self.factories:
                self.autofill(o, k, st)
            return self.dict_get(o, k, st)
        if isinstance(o, Lst):
            return self.list_get(o, k, st)
        if isinstance(o, Arr):
            return self.arr_get(o, k, st)
        if isinstance(o, View):
            return self.view_get(o, k, st)
        if isinstance(o, SArr):
            return self.sarr_get(o, k, st)
        if isinstance(o, Opq):
            return Opq(('item', o.key, ip.key(k, st)), 'arr' if o.ty == 'arr' and isinstance(k, Slc) else None)
        if isinstance(o, Mat):
            if o.kind == 'dense':
                v = self.getitem(o.args[0], k, st)
                if isinstance(v, (Arr, View)) and len(v.shape) == 2:
                    return Mat('dense', (v,), tuple(lift(d) for d in v.shape))
                if isinstance(v, T):
                    return v
            return Opq(('matitem', ip.key(o, st), ip.key(k, st)))
        if isinstance(o, Rng):
            return self.num(o.a, st) + self.num(o.s, st) * self.num(k, st)
        if isinstance(o, It):
            return self.getitem(self.to_list(o, st), k, st)
        if isinstance(o, (Ext, Cls)):
            return o          # typing subscripts
        if isinstance(o, Obj):
            f = ip.find_method(o.cls, '__getitem__')
            if f is not None:
                return ip.call_fn(f, [o, k], {}, st)
        if isinstance(o, T):
            raise Unsupported('index of scalar')
        raise Unsupported('getitem of %r' % (o,))

    def autofill(self, o, k, st):
        """the entry a defaultdict creates on the first look-up"""
        miss = st.pc & ~self.contains(o, k, st)
        if miss is FALSE:
            return
        s1, s2 = st.fork(miss), st.fork(st.pc & ~miss)
        self.dict_set(o, k, self.ip.call(self.factories[o.oid], [], {}, s1), s1)
        st.become(s1 if s2.pc is FALSE else self.ip.merge(s1, s2))

    def tuple_get(self, o, k, st):
        if isinstance(k, Slc):
            a, b, s = [cint(x) if x is not None else None for x in (k.a, k.b, k.s)]
            return o[a:b:s]
        i = cint(self.num(k, st))
        if i is not None:
            try:
                return o[i]
            except IndexError:
                raise Dead()
        kt = self.num(k, st)
        if all(isinstance(x, T) for x in o):
            return self.pick_list(list(o), kt)
        alts = []
        g = TRUE
        for j, x in enumerate(o):
            c = tm.eqB(kt, lift(j)) if j < len(o) - 1 else TRUE
            alts.append((g & c, x))
            g = g & ~c
        return Choice(alts)

    def np_index(self, k, shape, st):
        """concrete numpy index tuple, or None"""
        out = []
        fancy = False
        ax = 0
        for x in self.norm_key(k, st):
            if x is None:
                out.append(None)
                continue
            if x is Ellipsis:
                out.append(Ellipsis)
                nn = len([y for y in self.norm_key(k, st) if y is not None and y is not Ellipsis])
                ax = len(shape) - (nn - ax)
                continue
            if isinstance(x, Slc):
                v = []
                for y in (x.a, x.b, x.s):
                    if y is None:
                        v.append(None)
                    else:
                        c = cint(self.num(y, st))
                        if c is None:
                            return None
                        v.append(c)
                out.append(slice(*v))
            elif isinstance(x, (T, B)):
                if isinstance(x, B):
                    return None
                c = cint(x)
                if c is None:
                    return None
                out.append(c)
            elif isinstance(x, (Lst, tuple, Arr, View, Rng, It)):
                r = self.rd(x, st) if not isinstance(x, Rng) else self.rd(self.to_list(x, st), st)
                if isinstance(r, Sy):
                    return None
                cs = [cint(y) for y in r.ravel()]
                if any(c is None for c in cs):
                    return None
                out.append(np.array(cs, dtype=int).reshape(r.shape))
                fancy = True
            else:
                return None
            ax += 1
        return tuple(out), fancy

    def arr_get(self, o, k, st):
        ip = self.ip
        m = self.bool_mask(k, o.shape, st)
        if m is not None and all(x.const() is not None for x in m.ravel()):
            pos = np.nonzero(np.array([x.const() != 0 for x in m.ravel()], dtype=bool).reshape(m.shape))
            return ip.arr(ip.cells(o, st)[pos], st)
        if m is not None:
            # boolean selection: keep as conditional list
            return Opq(('masked', ip.key(o, st), ip.key(k, st)), 'arr')
        ni = self.np_index(k, o.shape, st)
        if ni is not None:
            idx, fancy = ni
            try:
                p = o.pos[idx]
            except IndexError:
                raise Dead()
            if not isinstance(p, np.ndarray):
                return ip.content(o.oid, st)[int(p)]
            if fancy:
                a = Arr(o.oid, p)
                return ip.arr(ip.cells(a, st), st)
            return Arr(o.oid, p)
        if any(isinstance(x, Opq) and x.ty == 'arr' for x in self.norm_key(k, st)):
            return Opq(('take', ip.key(o, st), ip.key(k, st)), 'arr')
        # symbolic index
        return self.wrap(self.sym_take(self.rd(o, st), k, st), st)

    def bool_mask(self, k, shape, st):
        if isinstance(k, (Arr, View)):
            c = self.ip.cells(k, st)
            if c.shape and c.size and all(self.is_bool_cell(x) for x in c.ravel()) and tuple(c.shape) == tuple(shape)[:c.ndim] and (k.oid in self.boolarrs or not all(x.const() is not None for x in c.ravel())):
                return c
        return None

    def is_bool_cell(self, t):
        c = t.const()
        if c is not None:
            return c in (0, 1)
        a = t.as_atom()
        return a is not None and a.op == 'ite' and a.args[1].const() in (0, 1) and a.args[2].const() in (0, 1)

    def sym_take(self, r, k, st):
        """r: ndarray or Sy; general indexing producing a value (copy)"""
        keys = list(self.norm_key(k, st))
        keys = [x for x in keys]
        nd = len(r.shape)
        if Ellipsis in [x for x in keys if not isinstance(x, (T, B))]:
            i = [j for j, x in enumerate(keys) if x is Ellipsis][0]
            nreal = len([x for x in keys if x is not None and x is not Ellipsis])
            keys = keys[:i] + [FULL] * (nd - nreal) + keys[i + 1:]
        nreal = len([x for x in keys if x is not None])
        keys = keys + [FULL] * (nd - nreal)
        axes = []      # per source axis: ('fix',T) | ('sl', a, outaxis) | ('fan', rd, outaxes)
        shape = []
        ax = 0
        fan_out = None
        for x in keys:
            if x is None:
                shape.append(1)
                continue
            n = r.shape[ax]
            if isinstance(x, Slc):
                if x.s is not None and cint(self.num(x.s, st)) != 1:
                    step = cint(self.num(x.s, st))
                    if step is None or step < 1 and cint(n) is None:
                        raise Unsupported('strided symbolic slice')
                    if cint(n) is None:
                        a, b = self.slice_bounds(x, n, st)
                        d = self.stride_len(a, b, step)
                        axes.append(('st', a, len(shape), step))
                        shape.append(cint(d) if cint(d) is not None else d)
                        ax += 1
                        continue
                    ids = list(range(cint(n)))[slice(cint(x.a) if x.a is not None else None, cint(x.b) if x.b is not None else None, step)]
                    ar = np.empty(len(ids), dtype=object)
                    ar[:] = [lift(q) for q in ids]
                    axes.append(('fan', ar, (len(shape),)))
                    shape.append(len(ids))
                else:
                    a, b = self.slice_bounds(x, n, st)
                    axes.append(('sl', a, len(shape)))
                    d = b - a
                    shape.append(cint(d) if cint(d) is not None else d)
            elif isinstance(x, (T, Opq)):
                t = self.num(x, st)
                c = cint(t)
                if c is not None and c < 0:
                    t = lift(n) + t
                axes.append(('fix', t))
            else:
                rr = self.rd(x, st) if not isinstance(x, Rng) else self.rng_rd(x, st)
                if fan_out is None:
                    fan_out = tuple(range(len(shape), len(shape) + len(rr.shape)))
                    shape += list(rr.shape)
                axes.append(('fan', rr, fan_out))
            ax += 1

        def fn(idx):
            out = []
            for a in axes:
                if a[0] == 'fix':
                    out.append(a[1])
                elif a[0] == 'sl':
                    out.append(a[1] + idx[a[2]])
                elif a[0] == 'st':
                    out.append(a[1] + lift(a[3]) * idx[a[2]])
                else:
                    sub = tuple(idx[j] for j in a[2])
                    sub = tuple(ZERO if cint(d) == 1 else i for d, i in zip(a[1].shape, sub))
                    out.append(self.at(a[1], sub))
            return self.at(r, tuple(out))
        if not shape:
            return self.scal(fn(()))
        return Sy(tuple(shape), fn)

    def rng_rd(self, x, st):
        a, b, s = self.num(x.a, st), self.num(x.b, st), self.num(x.s, st)
        n = self.rng_len(x, st)
        return Sy((n,), lambda idx: a + s * idx[0])

    def stride_len(self, a, b, step):
        """number of indices a, a+step, .. below b"""
        dm = self.divmod_const(b - a, step)
        if dm is not None:
            return dm[0] if dm[1] == 0 else dm[0] + ONE
        return tm.fun('ceil', (b - a) / lift(step))

    def rng_len(self, x, st):
        a, b, s = self.num(x.a, st), self.num(x.b, st), self.num(x.s, st)
        c = [cint(y) for y in (a, b, s)]
        if all(y is not None for y in c):
            return lift(len(range(*c)))
        if cint(s) == 1:
            return b - a
        if cint(s) == -1:
            return a - b
        d = b - a
        dm = self.divmod_const(d, cint(s)) if cint(s) else None
        if dm is not None and dm[1] == 0:
            return dm[0]
        return tm.fun('ceil', d / s)

    def view_get(self, o, k, st):
        ip = self.ip
        ni = self.np_index(k, o.shape, st)
        if ni is not None:
            idx, fancy = ni
            p = o.pos[idx]
            if isinstance(p, tuple):
                return ip.sel_content(ip.content(o.oid, st), p)
            v = View(o.oid, p)
            if fancy:
                return ip.arr(ip.cells(v, st), st)
            return v
        return self.wrap(self.sym_take(self.rd(o, st), k, st), st)

    def sarr_get(self, o, k, st):
        ip = self.ip
        keys = list(self.norm_key(k, st))
        nd = len(o.shape)
        if any(x is Ellipsis for x in keys):
            i = [j for j, x in enumerate(keys) if x is Ellipsis][0]
            nreal = len([x for x in keys if x is not None and x is not Ellipsis])
            keys = keys[:i] + [FULL] * (nd - nreal) + keys[i + 1:]
        def odd(x, n):
            # a stride the view cannot express
            if not isinstance(x, Slc) or x.s is None:
                return False
            c = cint(self.num(x.s, st))
            return c != 1 and (c is None or c < 1 or cint(n) is not None)
        if any(x is None for x in keys) or any(odd(x, n) for x, n in zip(keys, o.shape)):
            return self.wrap(self.sym_take(self.rd(o, st), tuple(keys), st), st)
        if len(keys) > nd:
            raise Unsupported('too many indices')
        keys = keys + [FULL] * (nd - len(keys))
        if any(self.is_masklike(x, o.shape[i], st) for i, x in enumerate(keys)):
            m = [x for i, x in enumerate(keys) if self.is_masklike(x, o.shape[i], st)][0]
            return Opq(('masked', ip.key(o, st), ip.key(m, st)), 'arr')
        if all(isinstance(x, (T, Slc, Opq)) for x in keys):
            axes, shape = [], []
            for x, n in zip(keys, o.shape):
                if isinstance(x, (T, Opq)):
                    t = self.num(x, st)
                    if cint(t) is not None and cint(t) < 0:
                        t = lift(n) + t
                    axes.append(('fix', t))
                else:
                    a, b = self.slice_bounds(x, n, st)
                    step = cint(self.num(x.s, st)) if x.s is not None else 1
                    if step != 1:
                        d = self.stride_len(a, b, step)
                        axes.append(('ax', len(shape), a if a is not ZERO else None, step))
                    else:
                        d = b - a
                        axes.append(('ax', len(shape), a if a is not ZERO else None))
                    c = cint(d)
                    shape.append(c if c is not None else d)
            im = IMap(axes, o.imap)
            if not shape:
                return ip.sel_content(ip.content(o.oid, st), im(()))
            if all(isinstance(d, int) for d in shape):
                pos = np.empty(tuple(shape), dtype=object)
                for i in np.ndindex(*shape):
                    pos[i] = im(tuple(lift(j) for j in i))
                return View(o.oid, pos)
            return SArr(o.oid, shape, im)
        return self.wrap(self.sym_take(self.rd(o, st), tuple(keys), st), st)

    def is_masklike(self, x, n, st):
        if isinstance(x, SArr) and len(x.shape) == 1:
            t = self.ip.sel(x, (tm.sym('ιx0'),), st)
            return self.is_bool_cell(t) and t.const() is None
        return False

    def setitem(self, o, k, v, st):
        ip = self.ip
        if isinstance(o, Choice):
            ip.mapchoice(o, lambda x, s: self.setitem(x, k, v, s), st)
            return
        if isinstance(o, Dct):
            self.dict_set(o, k, v, st)
            return
        if isinstance(o, Lst):
            self.list_set(o, k, v, st)
            return
        if isinstance(o, Arr):
            ni = self.np_index(k, o.shape, st)
            mask = self.bool_mask(k, o.shape, st)
            if mask is not None and all(x.const() is not None for x in mask.ravel()):
                ni = (np.nonzero(np.array([x.const() != 0 for x in mask.ravel()], dtype=bool).reshape(mask.shape)), True)
            elif mask is not None:
                cur = ip.cells(o, st)
                r = self.rd(v, st)
                if isinstance(r, Sy):
                    raise Unsupported('mask store')
                vb = np.broadcast_to(r, o.shape)
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    m = mask[i[:mask.ndim]]
                    out[i] = tm.ite(~tm.eq0(m), vb[i], cur[i])
                ip.write(o, out, st)
                return
            if ni is not None:
                idx, _ = ni
                p = o.pos[idx]
                p = np.asarray(p)
                r = self.rd(v, st)
                if isinstance(r, Sy):
                    raise Unsupported('store of symbolic array in concrete array')
                if r.ndim > p.ndim or (r.size == 1 and p.shape == ()):
                    r = r.reshape(p.shape) if r.size == p.size else r
                ip.write(Arr(o.oid, p), r, st)
                return
            # symbolic position in a known-size array
            keys = self.norm_key(k, st)
            if all(isinstance(x, (T, Opq)) for x in keys):
                ks = [self.num(x, st) for x in keys]
                cur = ip.cells(o, st)
                out = cur.copy()
                r = self.rd(v, st)
                for i in np.ndindex(o.shape[:len(ks)]):
                    c = TRUE
                    for a, j in zip(ks, i):
                        c = c & tm.eqB(a, lift(j))
                    if c is FALSE:
                        continue
                    sub = np.broadcast_to(r, o.shape[len(ks):])
                    if sub.shape == ():
                        out[i] = tm.ite(c, sub[()], cur[i])
                    else:
                        for j in np.ndindex(sub.shape):
                            out[i + j] = tm.ite(c, sub[j], cur[i + j])
                ip.write(o, out, st)
                return
            raise Unsupported('store index')
        if isinstance(o, View):
            ni = self.np_index(k, o.shape, st)
            if ni is None:
                raise Unsupported('store index into view')
            p = o.pos[ni[0]]
            r = self.rd(v, st)
            if isinstance(r, Sy):
                raise Unsupported('store of symbolic array in view')
            if isinstance(p, tuple):
                pp = np.empty((), dtype=object)
                pp[()] = p
                r = r.reshape(()) if r.size == 1 else r
                ip.write(View(o.oid, pp), r, st)
            else:
                ip.write(View(o.oid, p), r, st)
            return
        if isinstance(o, SArr):
            self.sarr_set(o, k, v, st)
            return
        if isinstance(o, Opq):
            ip.event('setitem', st, (o.key, ip.key(k, st), v))
            return
        if isinstance(o, Obj):
            f = ip.find_method(o.cls, '__setitem__')
            if f is not None:
                ip.call_fn(f, [o, k, v], {}, st)
                return
        if isinstance(o, Mat) and o.kind == 'dense':
            self.setitem(o.args[0], k, v.args[0] if isinstance(v, Mat) and v.kind == 'dense' else v, st)
            return
        if isinstance(o, Mat):
            ip.event('setitem', st, (ip.key(o, st), ip.key(k, st), v))
            return
        raise Unsupported('setitem on %r' % (o,))

    def sarr_set(self, o, k, v, st):
        ip = self.ip
        keys = list(self.norm_key(k, st))
        nd = len(o.shape)
        # mask store: x[mask] = value
        if len(keys) == 1 and (isinstance(keys[0], SArr) and len(keys[0].shape) <= nd):
            t = ip.sel(keys[0], tuple(tm.sym('ιx%d' % i) for i in range(len(keys[0].shape))), st)
            if self.is_bool_cell(t):
                mk = self.rd(keys[0], st)
                r = self.rd(v, st) if not isinstance(v, Opq) else None
                old = self.rd(o, st)
                m = len(mk.shape)

                def fn(idx):
                    c = ~tm.eq0(self.at(mk, idx[:m]))
                    if r is None:
                        val = tm.app('val', v.key, *idx)
                    else:
                        kk = len(r.shape)
                        val = self.at(r, idx[len(idx) - kk:] if kk else ())
                    return tm.ite(c, val, old.fn(idx))
                self.store_all(o, Sy(o.shape, fn), st)
                return
        target = self.sarr_get_view(o, keys, st)
        if isinstance(target, View):
            r = self.rd(v, st)
            if isinstance(r, Sy):
                r2 = np.empty(target.shape, dtype=object)
                kk = len(r.shape)
                for i in np.ndindex(target.shape):
                    ii = i[len(i) - kk:] if kk else ()
                    ii = tuple(0 if cint(d) == 1 else j for d, j in zip(r.shape, ii))
                    r2[i] = self.at(r, ii)
                r = r2
            if r.size == 1 and target.shape == ():
                r = r.reshape(())
            try:
                np.broadcast_to(r, target.shape)
            except ValueError:
                if r.size == int(np.prod(target.shape)):
                    r = r.reshape(target.shape)
                else:
                    raise Unsupported('store shape %s into %s' % (r.shape, target.shape))
            ip.write(target, r, st)
        elif isinstance(target, SArr):
            self.store_all(target, self.rd(v, st), st)
        else:
            # fancy: target = (quantified patterns)
            self.fancy_store(o, keys, v, st)

    def sarr_get_view(self, o, keys, st):
        if all(isinstance(x, (T, Slc, Opq)) or x is Ellipsis for x in keys):
            if all(isinstance(x, (T, Opq)) for x in keys) and len(keys) == len(o.shape):
                pos = np.empty((), dtype=object)
                idx = tuple(lift(n) + self.num(x, st) if (cint(self.num(x, st)) or 0) < 0 else self.num(x, st) for x, n in zip(keys, o.shape))
                pos[()] = o.imap(idx) if o.imap else idx
                return View(o.oid, pos)
            return self.sarr_get(o, tuple(keys), st)
        return None

    def fancy_store(self, o, keys, v, st):
        ip = self.ip
        nd = len(o.shape)
        keys = keys + [FULL] * (nd - len(keys))
        r = self.rd(v, st)
        quants, pat = [], []
        vidx = []
        fan = None
        for x, n in zip(keys, o.shape):
            if isinstance(x, (T, Opq)):
                pat.append(self.num(x, st))
            elif isinstance(x, Slc):
                a, b = self.slice_bounds(x, n, st)
                step = cint(self.num(x.s, st)) if x.s is not None else 1
                if step is None or step < 1:
                    raise Unsupported('fancy store stride')
                q = tm.atom('sym', 'ιq%d' % len(quants))
                quants.append((q, b - a if step == 1 else self.stride_len(a, b, step)))
                pat.append(a + lift(step) * lift(q))
                vidx.append(lift(q))
            else:
                rr = self.rng_rd(x, st) if isinstance(x, Rng) else self.rd(x, st)
                if len(rr.shape) != 1:
                    raise Unsupported('fancy store rank')
                if fan is None:
                    q = tm.atom('sym', 'ιq%d' % len(quants))
                    quants.append((q, lift(rr.shape[0])))
                    fan = lift(q)
                    vidx.append(fan)
                pat.append(self.at(rr, (fan,)))
        kk = len(r.shape)
        ii = vidx[len(vidx) - kk:] if kk else ()
        ii = tuple(ZERO if cint(d) == 1 else j for d, j in zip(r.shape, ii))
        val = self.at(r, ii)
        if o.imap:
            pat = o.imap(tuple(pat))
        # expand quantifiers of known extent
        combos = [({}, ())]
        for q, n in quants:
            c = cint(n)
            if c is not None and c <= 64:
                combos = [({**e, q: lift(j)}, qs) for e, qs in combos for j in range(c)]
            else:
                combos = [(e, qs + ((q, n),)) for e, qs in combos]
        c = ip.content(o.oid, st)
        for e, qs in combos:
            c = c.add(Store(qs, TRUE, tuple(tm.subst(p, e) for p in pat), tm.subst(val, e), ip.loc))
        st.heap[o.oid] = c
        ip.event('arrwrite', st, (o.oid,))

    def store_all(self, o, r, st):
        """o[...] = r for a SArr o"""
        ip = self.ip
        nd = len(o.shape)
        kk = len(r.shape)

        def val(idx):
            ii = idx[len(idx) - kk:] if kk else ()
            ii = tuple(ZERO if cint(d) == 1 else j for d, j in zip(r.shape, ii))
            return self.at(r, ii)
        if o.imap is None:
            c = ip.content(o.oid, st)
            st.heap[o.oid] = c.add(Store((), TRUE, tuple(None for _ in o.shape), val, ip.loc))
            ip.event('arrwrite', st, (o.oid,))
            return
        quants = []
        combos = [()]
        for i, n in enumerate(o.shape):
            c = cint(n)
            if c is not None and c <= 64:
                combos = [x + (lift(j),) for x in combos for j in range(c)]
            else:
                q = tm.atom('sym', 'ιq%d' % i)
                quants.append((q, lift(n)))
                combos = [x + (lift(q),) for x in combos]
        c = ip.content(o.oid, st)
        for x in combos:
            c = c.add(Store(tuple(quants), TRUE, o.imap(x), val(x), ip.loc))
        st.heap[o.oid] = c
        ip.event('arrwrite', st, (o.oid,))

    # -- lists and dicts ------------------------------------------------------
    def coll_seg(self, coll, st):
        k = tm.atom('sym', 'ιc')
        v = self.ip.elem(coll, lift(k), st)
        return Seg('s', TRUE, (self.ip.freeze(v, st), 'e', None, None), k, coll.n)

    def seg_len(self, s):
        if s.kind == 'e':
            return self.ip.b2t(s.guard)
        if s.guard is TRUE and s.value[1] == 'e':
            return lift(s.n)
        if s.guard is TRUE:
            lv, _ = self.levels(s)
            t = ONE
            for k, n in reversed(lv):
                t = tm.mksum(k, lift(n), t)
            return t
        return tm.app('count', s.k, lift(s.n), s.guard)

    def levels(self, s):
        """the loops around the elements of a segment, outermost first, and the frozen element"""
        lv = [(s.k, s.n)]
        v = s.value
        while v[1] == 's':
            lv.append((v[2], v[3]))
            v = v[0]
        return lv, v[0]

    def strides(self, s):
        """elements per round of every loop around a segment; None unless rounds are alike"""
        lv, f = self.levels(s)
        ks = [k for k, _ in lv]
        out, m = [], ONE
        for k, n in reversed(lv):
            if any(k2 in lift(n).atoms() for k2 in ks):
                return None
            out.append(m)
            m = m * lift(n)
        return lv, f, out[::-1], m

    def split_index(self, i, m):
        """i = m q + r, 0 <= r < m"""
        ip = self.ip
        i, m = lift(i), lift(m)
        if m.const() == 1:
            return i, ZERO
        if i.const() is not None and m.const() is not None:
            return lift(i.const() // m.const()), lift(i.const() % m.const())
        if len(m.m) == 1:
            (mono, co), = m.m.items()
            q = ZERO
            for t, c in i.m.items():
                have = dict(t)
                if isinstance(c, int) and isinstance(co, int) and co > 0 and c % co == 0 and all(have.get(x, 0) == e for x, e in mono):
                    q = q + tm.mk({tuple((x, e) for x, e in t if x not in dict(mono)): c // co})
            r = i - m * q
            if self.below(r, m):
                return q, r
        q = tm.fun('floor', i / m)
        return q, i - m * q

    def below(self, r, m):
        """0 <= r < m for loop counters r is made of (a polynomial with coefficients >= 0 of counters and sizes)"""
        if any(not (isinstance(c, int) and c >= 0) for c in r.m.values()):
            return False
        top = r
        for l in reversed(self.ip.loopctx):
            k = l.k if isinstance(l.k, tm.Atom) else l.k.as_atom()
            if k in top.atoms():
                top = tm.subst(top, {k: lift(l.n) - ONE})
        d = m - ONE - top
        return d.const() is not None and d.const() >= 0

    def nested_get(self, s, i, st):
        """element i of a segment filled by loops in loops"""
        x = self.strides(s)
        if x is None:
            return None
        lv, f, ms, total = x
        env, rest = {}, lift(i)
        for (k, n), m in zip(lv, ms):
            env[k], rest = self.split_index(rest, m)
        return self.ip.thaw(f, env, st)

    def length(self, v, st):
        if isinstance(v, (Lst, Dct)):
            c = self.ip.content(v.oid, st)
            n = c.base.n if c.base is not None else ZERO
            if isinstance(v, Lst) and v.kind == 'set' and c.base is None and 1 < len(c.segs) <= 24 and all(s.kind == 'e' for s in c.segs):
                for i, s in enumerate(c.segs):
                    g = s.guard
                    for t in c.segs[:i]:
                        g = g & ~(t.guard & self.keyeq(s.value, t.value, st))
                    n = n + self.ip.b2t(g)
                return n
            for s in c.segs:
                n = n + self.seg_len(s)
            return n
        if isinstance(v, tuple):
            return lift(len(v))
        if isinstance(v, str):
            return lift(len(v))
        if isinstance(v, (Arr, View)):
            return lift(v.shape[0])
        if isinstance(v, SArr):
            return lift(v.shape[0])
        if isinstance(v, Rng):
            return self.rng_len(v, st)
        if isinstance(v, Opq):
            return tm.app('len', v.key)
        if isinstance(v, It):
            n = ZERO
            for s in v.segs:
                n = n + (self.ip.b2t(s[1]) if s[0] == 'c' else lift(s[1]))
            return n
        if isinstance(v, Choice):
            r = None
            for g, x in reversed(v.alts):
                if x is None:
                    continue
                y = self.length(x, st)
                r = y if r is None else tm.ite(g, y, r)
            return r
        if isinstance(v, NObj) and '__len__' in v.attrs:
            return self.num(self.ip.call(v.attrs['__len__'], [], {}, st), st)
        if isinstance(v, Obj):
            f = self.ip.find_method(v.cls, '__len__')
            if f is not None:
                return self.num(self.ip.call_fn(f, [v], {}, st), st)
        raise Unsupported('len of %r' % (v,))

    def thaw_seg(self, s, kT, st):
        return self.ip.thaw(s.value[0], {s.k: kT}, st)

    def list_get(self, o, k, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        if isinstance(k, Slc):
            simple = c.base is None and not c.stores and all(s.kind == 'e' and s.guard is TRUE for s in c.segs)
            if simple:
                ks = [cint(self.num(x, st)) if x is not None else None for x in (k.a, k.b, k.s)]
                return ip.lst([s.value for s in c.segs[slice(*ks)]], st)
            if k.a is None and k.b is None and k.s is None:
                oid = ip.new_oid()
                st.heap[oid] = c
                return Lst(oid)
            return Opq(('slice', ip.key(o, st), ip.key(k, st)))
        if isinstance(k, Opq):
            k = self.num(k, st)
        i = self.num(k, st)
        ci = cint(i)
        # symbolic stores, latest first
        for j in range(len(c.stores) - 1, -1, -1):
            q, g, pt, val = c.stores[j]
            m = ip.match(Store(q, g, (pt,), None), (i,))
            if m is False:
                continue
            if m is None:
                r = self.list_rd(c, j + 1, i, st)
                return Opq(('listitem', ip.key(o, st), i)) if r is None else r
            gg = (tm.subst(g, m) if m else g) & ip.in_range(q, m)
            if gg is FALSE:
                continue
            v = ip.thaw(val[1], m, st) if isinstance(val, tuple) and val and val[0] == 'frz' else (ip.subst_val(val, m, st) if m else val)
            if gg is TRUE:
                return v
            oid = ip.new_oid()
            st.heap[oid] = LContent(c.base, c.segs, c.stores[:j])
            try:
                return ip.join(gg, v, self.list_get(Lst(oid, o.kind), k, st), st, st, st)
            except Dead:
                return v
        if ci is not None and ci < 0:
            if c.segs:
                j = ci
                seq = list(c.segs)
                if all(s.kind == 'e' and s.guard is TRUE for s in seq[ci:]) and len(seq) >= -ci:
                    return seq[ci].value
                last = seq[-1]
                if ci == -1 and last.kind == 'e':
                    rest = st.fork(st.pc & ~last.guard)
                    if rest.pc is FALSE:
                        return last.value
                if ci == -1 and last.kind == 's' and last.value[1] == 'e' and last.guard is TRUE:
                    return self.thaw_seg(last, lift(last.n) - ONE, st)
                return Opq(('listitem', ip.key(o, st), i))
            if c.base is not None:
                return ip.elem(c.base, c.base.n + i, st)
            raise Dead()
        segs = list(c.segs)
        if c.base is not None:
            if not segs:
                return ip.elem(c.base, i, st)
            d = (i - c.base.n)
            if cint(d) is None:
                if segs and not any(x in i.atoms() for x in c.base.n.atoms()):
                    return ip.elem(c.base, i, st)
                return Opq(('listitem', ip.key(o, st), i))
            i = d
            ci = cint(d)
        j = 0
        while segs:
            s = segs[0]
            if s.kind == 'e' and s.guard is TRUE and ci is not None:
                if ci == 0:
                    return s.value
                ci -= 1
                i = lift(ci)
                segs.pop(0)
                continue
            if s.kind == 'e' and ci is None and all(x.kind == 'e' and x.guard is TRUE for x in segs):
                return self.tuple_get(tuple(x.value for x in segs), i, st)
            if s.kind == 's' and s.grp is not None:
                # several elements per round of one loop
                grp = [x for x in segs if x.grp is not None and x.grp[0] is s.grp[0]]
                m = s.grp[1]
                if len(grp) != m or segs[:m] != grp or any(x.guard is not TRUE or x.value[1] != 'e' for x in grp):
                    break
                if len(segs) > m:
                    d = i - lift(m) * lift(s.n)
                    if cint(d) is not None and cint(d) >= 0:
                        i, ci = d, cint(d)
                        segs = segs[m:]
                        continue
                dm = self.divmod_const(i, m)
                if dm is None or not (dm[0].const() is not None or all(ip.is_int_atom(x) for x in dm[0].shallow())):
                    if i.as_atom() is not None and i.as_atom().op == 'sym' and str(i.as_atom().args[0]) == 'ιprobe':
                        return self.thaw_seg(s, i, st)
                    break
                return self.thaw_seg(grp[dm[1]], dm[0], st)
            if s.kind == 's' and s.guard is TRUE and s.value[1] == 's' and len(segs) == 1 and s.grp is None:
                x = self.nested_get(s, i, st)
                if x is not None:
                    return x
            if s.kind == 's' and s.guard is TRUE and s.value[1] == 'e':
                if len(segs) == 1 or cint(i) == 0:
                    return self.thaw_seg(s, i, st)
                d = i - lift(s.n)
                if cint(d) is not None and cint(d) >= 0:
                    i = d
                    ci = cint(d)
                    segs.pop(0)
                    continue
                return self.thaw_seg(s, i, st) if not (s.n.atoms() & i.atoms() if isinstance(s.n, T) else False) else Opq(('listitem', ip.key(o, st), i))
            break
        if not segs and c.base is None and ci is not None:
            raise Dead()
        return Opq(('listitem', ip.key(o, st), i))

    def list_rd(self, c, n, i, st):
        """element i of a list with n stores that may or may not hit it: an array of reads (None: not a list of arrays)"""
        ip = self.ip
        if n > 12:
            return None
        hole = tm.sym('ιh')

        def cells(v):
            if isinstance(v, T):
                return v
            if isinstance(v, (int, float, B)):
                return self.num(v, st)
            return ip.cells(v, st)
        try:
            oid = ip.new_oid()
            st.heap[oid] = LContent(c.base, c.segs, ())
            base = cells(self.list_get(Lst(oid), hole, st))
            vals = []
            for q, g, pt, val in c.stores[:n]:
                vals.append(cells(ip.thaw(val[1], {}, st) if isinstance(val, tuple) and val and val[0] == 'frz' else val))
        except (Unsupported, TypeError, AttributeError, Dead):
            return None
        shape = getattr(base, 'shape', None)
        if any(getattr(v, 'shape', None) != shape for v in vals):
            return None

        def content(ix):
            pick = lambda x: x if ix is None else x[ix]
            b = pick(base)
            return SContent(lambda idx: tm.subst(b, {hole.as_atom(): idx[0]}),
                            [Store(q, g, (pt,), pick(v)) for (q, g, pt, _), v in zip(c.stores[:n], vals)])
        if not hasattr(self, 'lboxes'):
            self.lboxes = {}
        key = (id(c), n)
        if key not in self.lboxes:
            ixs = [None] if shape is None else list(np.ndindex(*shape))
            self.lboxes[key] = (c, {ix: tm.Box(content(ix), n, 1) for ix in ixs})
        bx = self.lboxes[key][1]
        read = lambda b: tm.app('rd', b, (i,), tuple(lift(a) for a in b.free))
        if shape is None:
            return read(bx[None])
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = read(bx[ix])
        return ip.arr(out, st)

    def list_set(self, o, k, v, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        i = self.num(k, st) if not isinstance(k, Slc) else None
        ci = cint(i) if i is not None else None
        ip.event('listset', st, (o.oid, i))
        if ci is not None and c.base is None and not c.stores and all(s.kind == 'e' and s.guard is TRUE for s in c.segs):
            segs = list(c.segs)
            try:
                segs[ci] = Seg('e', TRUE, v, loc=ip.loc)
            except IndexError:
                raise Dead()
            st.heap[o.oid] = LContent(None, segs)
            return
        if i is None:
            raise Unsupported('slice store in list')
        if ip.loopctx:
            v = ('frz', ip.freeze(v, st))
        else:
            v = ('frz', ip.freeze(v, st))
        st.heap[o.oid] = LContent(c.base, c.segs, c.stores + (((), TRUE, i, v),))

    def list_append(self, o, v, st):
        c = self.ip.content(o.oid, st)
        st.heap[o.oid] = LContent(c.base, c.segs + (Seg('e', TRUE, v, loc=self.ip.loc),), c.stores)
        self.ip.event('append', st, (o.oid, v))

    def list_extend(self, o, v, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        ip.event('append', st, (o.oid, v))
        if isinstance(v, Choice):
            ip.mapchoice(v, lambda x, s: self.list_extend(o, x, s), st)
            return
        if isinstance(v, Lst):
            d = ip.content(v.oid, st)
            extra = ((self.coll_seg(d.base, st),) if d.base is not None else ()) + tuple(d.segs)
            st.heap[o.oid] = LContent(c.base, c.segs + extra, c.stores)
            return
        segs = []
        for s in self.iterate(v, st):
            if s[0] == 'c':
                segs.append(Seg('e', s[1], s[2], loc=ip.loc))
            else:
                k = tm.atom('sym', 'ιe%d' % len(ip.loopctx))
                x = s[2](lift(k), st)
                g = s[3](lift(k)) if len(s) > 3 and s[3] else TRUE
                segs.append(Seg('s', g, (ip.freeze(x, st), 'e', None, None), k, s[1], loc=ip.loc))
        st.heap[o.oid] = LContent(c.base, c.segs + tuple(segs), c.stores)

    def dict_get(self, o, k, st, default=UNBOUND):
        ip = self.ip
        c = ip.content(o.oid, st)
        alts = []
        g = TRUE
        for s in reversed(c.segs):
            if s.kind != 'e':
                alts.append((g, Opq(('dictitem', ip.key(o, st), ip.key(k, st)))))
                g = FALSE
                break
            e = self.keyeq(s.key, k, st) & s.guard
            if e is FALSE:
                continue
            gg = g & e
            if gg is not FALSE:
                alts.append((gg, s.value))
            g = g & ~e
            if g is FALSE:
                break
        if g is not FALSE and c.base is not None:
            if isinstance(k, Opq) and isinstance(k.key, tuple) and k.key[:2] == ('key', c.base.name):
                alts.append((g, ip.elem(c.base, k.key[2], st)))
                g = FALSE
            else:
                present = tm.pred('in', c.base.name, ip.key(k, st))
                el = ip.elem(c.base, tm.app('idxof', c.base.name, ip.key(k, st)), st)
                alts.append((g & present, el))
                g = g & ~present
        if default is not UNBOUND:
            if g is not FALSE:
                alts.append((g, default))
        elif g is not FALSE and (g & st.pc) is not FALSE:
            ip.event('raise', State(st.env, st.heap, st.pc & g), ('KeyError',))
            st.pc = st.pc & ~g
            if st.pc is FALSE:
                raise Dead()
        alts = [(gg, v) for gg, v in alts if (gg & st.pc) is not FALSE]
        if not alts:
            raise Dead()
        if len(alts) == 1:
            return alts[0][1]
        # joined
        r = alts[-1][1]
        for gg, v in reversed(alts[:-1]):
            r = ip.join(gg, v, r, st, st, st)
        return r

    def dict_set(self, o, k, v, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        segs = list(c.segs)
        kk = ip.key(k, st)
        ip.event('dictset', st, (o.oid, k, v))
        for i, s in enumerate(segs):
            if s.kind == 'e' and s.guard is TRUE and ip.key(s.key, st) == kk:
                segs[i] = Seg('e', TRUE, v, key=k, loc=ip.loc)
                st.heap[o.oid] = LContent(c.base, segs, c.stores)
                return
        segs.append(Seg('e', TRUE, v, key=k, loc=ip.loc))
        st.heap[o.oid] = LContent(c.base, segs, c.stores)

    def to_list(self, v, st):
        if isinstance(v, Lst):
            return v
        ip = self.ip
        oid = ip.new_oid()
        st.heap[oid] = LContent(None, ())
        o = Lst(oid)
        self.list_extend_quiet(o, v, st)
        return o

    def list_extend_quiet(self, o, v, st):
        self.ip.quiet += 1
        try:
            self.list_extend(o, v, st)
        finally:
            self.ip.quiet -= 1

    # -- iteration -------------------------------------------------------------
    def iterate(self, v, st):
        ip = self.ip
        if isinstance(v, NObj) and '__iter__' in v.attrs:
            v = ip.call(v.attrs['__iter__'], [], {}, st)
        if isinstance(v, tuple):
            return [('c', TRUE, x) for x in v]
        if isinstance(v, It):
            return v.segs
        if isinstance(v, Rng):
            n = self.rng_len(v, st)
            a, s = self.num(v.a, st), self.num(v.s, st)
            c = cint(n)
            if c is not None and c <= 700:
                return [('c', TRUE, a + s * lift(i)) for i in range(c)]
            return [('s', n, lambda k, st2: a + s * k)]
        if isinstance(v, Lst):
            c = ip.content(v.oid, st)
            out = []
            if c.stores:
                n = self.length(v, st)
                return [('s', n, lambda k, s2: self.list_get(v, k, s2))]
            if c.base is not None:
                out.append(('s', c.base.n, lambda k, s2, b=c.base: ip.elem(b, k, s2)))
            for s in c.segs:
                if s.kind == 'e':
                    out.append(('c', s.guard, s.value))
                else:
                    out.append(self.iter_seg(s, v, st))
            return out
        if isinstance(v, Dct):
            return self.dict_iter(v, 'keys', st)
        if isinstance(v, (Arr, View)):
            return [('c', TRUE, self.getitem(v, lift(i), st)) for i in range(v.shape[0])]
        if isinstance(v, SArr):
            n = v.shape[0]
            c = cint(n)
            if c is not None:
                return [('c', TRUE, self.getitem(v, lift(i), st)) for i in range(c)]
            return [('s', lift(n), lambda k, s2: self.getitem(v, k, s2))]
        if isinstance(v, str):
            return [('c', TRUE, ch) for ch in v]
        if isinstance(v, Opq):
            return [('s', tm.app('len', v.key), lambda k, s2: Opq(('item', v.key, k)))]
        if isinstance(v, Choice):
            out = []
            for g, x in v.alts:
                if x is None:
                    continue
                for s in self.iterate(x, st):
                    if s[0] == 'c':
                        out.append(('c', g & s[1], s[2]))
                    else:
                        g0 = s[3] if len(s) > 3 and s[3] else None
                        out.append(('s', s[1], s[2], (lambda k, g=g, g0=g0: g & (g0(k) if g0 else TRUE))))
            return out
        if v is None:
            raise Dead()
        if isinstance(v, Obj):
            f = ip.find_method(v.cls, '__iter__')
            if f is not None:
                return self.iterate(ip.call_fn(f, [v], {}, st), st)
        raise Unsupported('iterate %r' % (v,))

    def iter_seg(self, s, v, st):
        ip = self.ip
        if s.value[1] == 'e':
            g = None if s.guard is TRUE else (lambda k, s=s: tm.subst(s.guard, {s.k: k}))
            seg = ('s', s.n, lambda k, s2, s=s: self.thaw_seg(s, k, s2))
            return seg + ((g,) if g else ())
        # nested segment: flatten with opaque indices for the two levels
        lv, f = self.levels(s)
        if s.guard is TRUE and s.grp is None and self.strides(s) is not None:
            return ('s', self.seg_len(s), lambda k, s2: self.nested_get(s, k, s2))

        def elem(k, s2):
            return ip.thaw(f, {q: tm.app('round', j, s.k, lift(s.n), k) for j, (q, _) in enumerate(lv)}, s2)
        return ('s', tm.app('count', s.k, lift(s.n), s.guard, *[lift(n) for _, n in lv[1:]]), elem)

    def dict_iter(self, v, what, st):
        ip = self.ip
        c = ip.content(v.oid, st)
        out = []

        def pick(k, x):
            return k if what == 'keys' else (x if what == 'values' else (k, x))
        if c.base is not None:
            b = c.base
            out.append(('s', b.n, lambda k, s2: pick(Opq(('key', b.name, k), 'str'), ip.elem(b, k, s2))))
        for s in c.segs:
            if s.kind == 'e':
                out.append(('c', s.guard, pick(s.key, s.value)))
            else:
                def el(k, s2, s=s):
                    kv = ip.thaw(s.key if isinstance(s.key, tuple) else ('v', s.key), {s.k: k}, s2) if what != 'values' else None
                    return pick(kv, self.thaw_seg(s, k, s2) if what != 'keys' else None)
                g = None if s.guard is TRUE else (lambda k, s=s: tm.subst(s.guard, {s.k: k}))
                out.append(('s', s.n, el) + ((g,) if g else ()))
        return out

    def unpack(self, v, n, st):
        ip = self.ip
        if isinstance(v, tuple):
            if n is not None and len(v) != n:
                raise Unsupported('unpack %d into %d' % (len(v), n))
            return list(v)
        if isinstance(v, Choice):
            if n is None:
                raise Unsupported('star unpack of choice')
            r = ip.mapchoice(v, lambda x, s: tuple(self.unpack(x, n, s)), st)
            return self.unpack(r, n, st) if not isinstance(r, Choice) else [Choice([(g, x[i]) for g, x in r.alts]) for i in range(n)]
        if isinstance(v, (Arr, View)):
            return [self.getitem(v, lift(i), st) for i in range(v.shape[0])]
        if isinstance(v, Lst):
            c = ip.content(v.oid, st)
            if c.base is None and all(s.kind == 'e' and s.guard is TRUE for s in c.segs):
                return [s.value for s in c.segs]
        if n is not None:
            if isinstance(v, Opq):
                return [Opq(('item', v.key, i)) for i in range(n)]
            return [self.getitem(v, lift(i), st) for i in range(n)]
        raise Unsupported('unpack %r' % (v,))

    def generator(self, fn, work, st):
        ip = self.ip
        oid = ip.new_oid()
        work.heap[oid] = LContent(None, ())
        work.env['$gen'] = oid
        end = ip.block(fn.node.body, work)
        for s, _ in ip.frames[-1].returns:
            end = ip.merge(end, s)
        if end is None:
            raise Dead()
        st.heap, st.pc = end.heap, end.pc
        return Lst(oid)

    # -- names -------------------------------------------------------------------
    BUILTINS = set('''print len dir range enumerate zip min max sum abs float int str bool list tuple dict set sorted reversed
        isinstance hasattr getattr setattr type any all round map filter pow divmod iter next callable super open repr
        format id frozenset hash vars object staticmethod property classmethod Exception ValueError RuntimeError
        KeyError TypeError IndexError NotImplementedError AssertionError OSError FileNotFoundError ZeroDivisionError
        AttributeError StopIteration complex input chr ord bytes slice __name__ __file__'''.split())

    def builtin(self, name):
        if name in self.BUILTINS:
            if name == '__name__':
                return 'module'
            return Ext('builtins.' + name)
        return None

    def ext_attr(self, o, name):
        full = o.path + '.' + name
        if name == '__name__' and o.path.startswith('builtins.'):
            return o.path[9:]
        if full in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return tm.PI
        if full == 'numba.config.NUMBA_NUM_THREADS':
            return tm.sym('NUMBA_NUM_THREADS')
        if full in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.Infinity'):
            return tm.sym('inf')
        if full in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return tm.sym('nan')
        if full == 'numpy.newaxis':
            return None
        return Ext(full)

    def value_attr(self, o, name, st):
        ip = self.ip
        if isinstance(o, (Arr, View)):
            if name == 'shape':
                return tuple(lift(d) for d in o.shape)
            if name == 'T':
                return type(o)(o.oid, o.pos.T)
            if name == 'size':
                return lift(o.pos.size)
            if name == 'ndim':
                return lift(o.pos.ndim)
            if name == 'dtype':
                return Ext('numpy.dtype')
            if name == 'real':
                return o
            return BoundExt(o, name)
        if isinstance(o, SArr):
            if name == 'shape':
                return tuple(lift(d) for d in o.shape)
            if name == 'T':
                return self.transpose(o, None, st)
            if name == 'size':
                n = ONE
                for d in o.shape:
                    n = n * lift(d)
                return n
            if name == 'ndim':
                return lift(len(o.shape))
            if name == 'dtype':
                return Ext('numpy.dtype')
            return BoundExt(o, name)
        if isinstance(o, Mat):
            if name == 'T':
                return self.mat_T(o, st)
            if name == 'shape':
                return tuple(lift(d) for d in o.shape) if o.shape else Opq(('shape', ip.key(o, st)))
            if name == 'A1' and self.cells_of(o, st) is not None:
                return self.wrap(self.cells_of(o, st).ravel().copy(), st)
            if name == 'A1' and o.kind in ('rowsum', 'colsum') and o.shape:
                key, n = ip.key(o, st), o.shape[0 if o.kind == 'rowsum' else 1]
                return self.wrap(Sy((n,), lambda idx: tm.app('matvec', key, 'one', idx[0])), st)
            if name == 'A' and (v := self.n_array([o], {}, st)) is not o:
                return v
            if name == 'data':
                return Opq(('matdata', ip.key(o, st)), 'arr')
            return BoundExt(o, name)
        if isinstance(o, (T, B)):
            if name in ('real',):
                return o
            if name == 'shape':
                return ()
            if name == 'ndim':
                return ZERO
            return BoundExt(o, name)
        if isinstance(o, Fn):
            if name == '__name__':
                return o.qual.split('.')[-1]
            return Opq(('attr', ip.key(o, st), name))
        if isinstance(o, Bound):
            if name == '__name__':
                return o.fn.qual.split('.')[-1]
        if isinstance(o, (Lst, Dct, tuple, str, Rng, It)):
            return BoundExt(o, name)
        if isinstance(o, BoundExt):
            return Opq(('attr', ip.key(o, st), name))
        raise Unsupported('attribute %s of %r' % (name, o))

    def mat_T(self, m, st):
        if m.kind == 'T':
            return m.args[0]
        x = self.cells_of(m, st)
        if x is not None:
            return self.dense(x.T.copy(), st)
        return Mat('T', (m,), (m.shape[1], m.shape[0]) if m.shape else None)

    def transpose(self, o, axes, st):
        r = self.rd(o, st)
        nd = len(r.shape)
        if axes is not None and len(axes) != nd:
            raise Unsupported('transpose axes')
        ax = list(reversed(range(nd))) if axes is None else axes
        if isinstance(o, (Arr, View)):
            return type(o)(o.oid, o.pos.transpose(ax))
        if isinstance(r, np.ndarray):
            return self.wrap(r.transpose(ax), st)
        if nd == 1:
            return o
        sh = tuple(r.shape[a] for a in ax)

        def fn(idx):
            src = [None] * nd
            for j, a in enumerate(ax):
                src[a] = idx[j]
            return r.fn(tuple(src))
        # writable view
        if isinstance(o, SArr):
            def im(idx, under=o.imap):
                src = [None] * nd
                for j, a in enumerate(ax):
                    src[a] = idx[j]
                src = tuple(src)
                return under(src) if under else src
            return SArr(o.oid, sh, im)
        return self.wrap(Sy(sh, fn), st)

    # -- methods of modelled values -------------------------------------------------
    def call_method(self, o, name, args, kw, st):
        ip = self.ip
        if isinstance(o, str):
            return self.str_method(o, name, args, kw, st)
        if isinstance(o, Lst):
            return self.list_method(o, name, args, kw, st)
        if isinstance(o, Dct):
            return self.dict_method(o, name, args, kw, st)
        if isinstance(o, Mat):
            if name == 'dot':
                x = args[0]
                return self.matop('MatMult', o, x, st)
            if name in ('tobsr', 'tocsr', 'tocsc', 'tocoo', 'todok', 'tolil', 'copy', 'asformat', 'astype'):
                if o.kind == 'dense':
                    return Mat('dense', (self.n_copy([o.args[0]], {}, st),), o.shape)
                return o
            if name == 'transpose':
                return self.mat_T(o, st)
            if name == 'multiply':
                x, y = self.cells_of(o, st), self.cells_of(args[0], st) if isinstance(args[0], Mat) else None
                if x is not None and y is not None and x.shape == y.shape:
                    return self.dense(x * y, st)
                return Mat('ewmul', (o, args[0]), o.shape)
            if name == 'sum':
                return self.n_sum([o] + list(args), kw, st)
            if name == 'diagonal':
                x = self.cells_of(o, st)
                if x is not None:
                    return self.wrap(np.array([x[i, i] for i in range(min(x.shape))], dtype=object), st)
                key = ip.key(o, st)
                return self.wrap(Sy((o.shape[0] if o.shape else tm.app('len', key),), lambda idx: tm.app('diag', key, idx[0])), st)
            if name in ('toarray', 'todense'):
                if o.kind == 'dense':
                    return self.n_copy([o.args[0]], {}, st)
                key = ip.key(o, st)
                return self.wrap(Sy(o.shape, lambda idx: tm.app('matel', key, *idx)), st)
            return Opq(('matmeth', name, ip.key(o, st)) + tuple(ip.key(a, st) for a in args))
        if isinstance(o, (Arr, View, SArr)):
            return self.arr_method(o, name, args, kw, st)
        if isinstance(o, (T, B)):
            if name in ('item', 'copy', 'astype', 'conjugate', 'conj'):
                return o
            if name in ('any', 'all'):
                return ip.truth(o, st)
            if name in ('sum', 'max', 'min', 'mean', 'flatten', 'ravel'):
                return o
            if name == 'dot':
                return self.binop('Mult', o, args[0], st)
            if name == 'is_integer':
                return tm.pred('isint', o)
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                return Opq(('tup', name, ip.key(o, st), ip.key(args[0], st)))
        raise Unsupported('method %s of %r' % (name, o))

    def str_method(self, o, name, args, kw, st):
        ip = self.ip
        if all(isinstance(a, str) for a in args) and not kw:
            if name in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'join', 'title', 'rstrip', 'lstrip', 'isdigit', 'find'):
                r = getattr(o, name)(*args)
                return ip.const(r)
            if name == 'split':
                return ip.lst(list(o.split(*args)), st)
        if name == 'join' and len(args) == 1 and isinstance(args[0], (Lst, tuple)):
            try:
                xs = [s[2] for s in self.iterate(args[0], st)]
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
            except Unsupported:
                pass
            segs = []
            for s in self.iterate(args[0], st):
                if s[0] == 'c':
                    segs.append(('c', s[1], ip.key(s[2], st)))
                else:
                    k = tm.atom('sym', 'ιj')
                    segs.append(('s', s[1], ip.key(s[2](lift(k), st), st)))
            return Opq(('join', o) + tuple(segs), 'str')
        if name == 'format':
            return Opq(('fmt', o) + tuple(ip.key(a, st) for a in args), 'str')
        if name in ('startswith', 'endswith'):
            return tm.pred('str', name, o, ip.key(args[0], st))
        return Opq(('strm', name, o) + tuple(ip.key(a, st) for a in args), 'str')

    def list_method(self, o, name, args, kw, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        if name == 'append':
            self.list_append(o, args[0], st)
            return None
        if name in ('extend',) or (name == 'update' and o.kind == 'set'):
            self.list_extend(o, args[0], st)
            return None
        if name == 'add':
            kk = ip.key(args[0], st)
            if not any(s.kind == 'e' and s.guard is TRUE and ip.key(s.value, st) == kk for s in c.segs):
                self.list_append(o, args[0], st)
            return None
        if name == 'copy':
            oid = ip.new_oid()
            st.heap[oid] = c
            return Lst(oid, o.kind)
        if name == 'clear':
            st.heap[o.oid] = LContent(None, ())
            ip.event('clear', st, (o.oid,))
            return None
        if name == 'appendleft':
            name, args = 'insert', [lift(0)] + list(args)
        if name == 'popleft':
            name, args = 'pop', [lift(0)]
        if name == 'pop':
            ip.event('pop', st, (o.oid,))
            simple = c.base is None and not c.stores and all(s.kind == 'e' and s.guard is TRUE for s in c.segs)
            if simple and (not args or cint(args[0]) is not None):
                segs = list(c.segs)
                if not segs:
                    raise Dead()
                s = segs.pop(cint(args[0]) if args else -1)
                st.heap[o.oid] = LContent(None, segs)
                return s.value
            v = self.list_get(o, args[0] if args else lift(-1), st)
            ip.fresh += 1
            st.heap[o.oid] = LContent(Coll(('popped', ip.key(o, st), ip.fresh), 'opq'), ())
            return v
        if name == 'insert':
            i = cint(args[0])
            ip.event('append', st, (o.oid, args[1]))
            if c.base is None and i is not None:
                segs = list(c.segs)
                segs.insert(i, Seg('e', TRUE, args[1], loc=ip.loc))
                st.heap[o.oid] = LContent(None, segs, c.stores)
                return None
            raise Unsupported('insert')
        if name in ('sort', 'reverse'):
            segs = list(c.segs)
            if name == 'reverse' and c.base is None and all(s.kind == 'e' for s in segs):
                st.heap[o.oid] = LContent(None, segs[::-1])
                return None
            if name == 'sort' and not kw and c.base is None and not c.stores and all(s.kind == 'e' and s.guard is TRUE for s in segs):
                p = self.sort2([s.value for s in segs], st)
                if p is not None:
                    st.heap[o.oid] = LContent(None, [Seg('e', TRUE, x, loc=ip.loc) for x in p])
                    return None
            if name == 'sort':
                p = self.x_builtins_sorted([o], kw, st)
                if ip.content(p.oid, st).base is None:
                    st.heap[o.oid] = ip.content(p.oid, st)
                    return None
            ip.fresh += 1
            st.heap[o.oid] = LContent(Coll((name, ip.key(o, st)), 'opq', self.length(o, st)), ())
            return None
        if name in ('index', 'count'):
            return tm.app('list' + name, ip.key(o, st), ip.key(args[0], st))
        if name == 'remove' or name == 'discard':
            ip.event('remove', st, (o.oid, args[0]))
            ip.fresh += 1
            st.heap[o.oid] = LContent(Coll(('removed', ip.key(o, st), ip.key(args[0], st)), 'opq'), ())
            return None
        if name in ('union', 'intersection', 'difference', 'issubset', 'symmetric_difference') and o.kind == 'set':
            return self.setop(name, o, args, st)
        if name in ('isdisjoint', 'issuperset') and o.kind == 'set':
            x = self.setop('intersection', o, args, st) if name == 'isdisjoint' else self.setop('difference', self.as_set(args[0], st), [o], st)
            return ~ip.truth(x, st)
        raise Unsupported('list method %s' % name)

    def as_set(self, v, st):
        if isinstance(v, Lst) and v.kind == 'set':
            return v
        o = Lst(self.ip.new_oid(), 'set')
        st.heap[o.oid] = LContent(None, ())
        self.list_extend(o, v, st)
        return o

    def explicit(self, v, st):
        if isinstance(v, tuple):
            return [(TRUE, x) for x in v]
        if isinstance(v, (Arr, View)) and len(v.shape) == 1:
            return [(TRUE, x) for x in self.ip.cells(v, st)]
        if isinstance(v, (Lst, Dct)):
            c = self.ip.content(v.oid, st)
            if c.base is None and not c.stores and all(s.kind == 'e' for s in c.segs):
                return [(s.guard, s.key if isinstance(v, Dct) else s.value) for s in c.segs]
        return None

    def setop(self, name, o, args, st):
        """union, intersection, difference ... of sets whose elements are listed one by one"""
        ip = self.ip
        name = {'Sub': 'difference', 'BitAnd': 'intersection', 'BitOr': 'union', 'BitXor': 'symmetric_difference'}.get(name, name)
        sets = [self.explicit(v, st) for v in [o] + list(args)]
        if any(s is None for s in sets):
            return Opq(('set' + name, ip.key(o, st)) + tuple(ip.key(a, st) for a in args), 'set')

        def within(x, ys):
            r = FALSE
            for g, y in ys:
                r = r | (g & self.keyeq(x, y, st))
            return r
        cur = sets[0]
        for ys in sets[1:]:
            if name == 'intersection':
                cur = [(g & within(x, ys), x) for g, x in cur]
            elif name == 'difference':
                cur = [(g & ~within(x, ys), x) for g, x in cur]
            elif name == 'union':
                cur = cur + [(g & ~within(y, cur), y) for g, y in ys]
            elif name == 'symmetric_difference':
                cur = [(g & ~within(x, ys), x) for g, x in cur] + [(g & ~within(y, cur), y) for g, y in ys]
            else:
                r = TRUE
                for g, x in cur:
                    r = r & (~g | within(x, ys))
                return r
        oid = ip.new_oid()
        st.heap[oid] = LContent(None, [Seg('e', g, x, loc=ip.loc) for g, x in cur if g is not FALSE])
        return Lst(oid, 'set')

    def dict_method(self, o, name, args, kw, st):
        ip = self.ip
        c = ip.content(o.oid, st)
        if name in ('keys', 'values', 'items'):
            return It(self.dict_iter(o, name, st))
        if name == 'get':
            return self.dict_get(o, args[0], st, args[1] if len(args) > 1 else None)
        if name == 'copy':
            oid = ip.new_oid()
            st.heap[oid] = c
            return Dct(oid)
        if name == 'clear':
            st.heap[o.oid] = LContent(None, ())
            ip.event('clear', st, (o.oid,))
            return None
        if name == 'update':
            d = args[0]
            if isinstance(d, Dct):
                for s in ip.content(d.oid, st).segs:
                    self.dict_set(o, s.key, s.value, st)
                return None
        if name == 'setdefault':
            p = self.contains(o, args[0], st)
            v = self.dict_get(o, args[0], st, args[1] if len(args) > 1 else None)
            if p is TRUE:
                return v
            s2 = st.fork(st.pc & ~p)
            if s2.pc is not FALSE:
                self.dict_set(o, args[0], args[1], s2)
                if (st.pc & p) is FALSE:
                    st.become(s2)
                else:
                    s1 = st.fork(st.pc & p)
                    st.become(ip.merge(s1, s2))
            return v
        if name == 'pop':
            v = self.dict_get(o, args[0], st, args[1] if len(args) > 1 else UNBOUND)
            kk = ip.key(args[0], st)
            st.heap[o.oid] = LContent(c.base, [s for s in c.segs if not (s.kind == 'e' and ip.key(s.key, st) == kk)], c.stores)
            ip.event('pop', st, (o.oid, args[0]))
            return v
        raise Unsupported('dict method %s' % name)

    def arr_method(self, o, name, args, kw, st):
        if name == 'dot':
            return self.call_ext('numpy.dot', [o] + list(args), kw, st)
        if name in ('copy', 'astype', 'flatten', 'ravel', 'reshape', 'sum', 'mean', 'max', 'min', 'transpose', 'any', 'all',
                    'argmin', 'argmax', 'trace', 'clip', 'squeeze', 'cumsum', 'prod', 'nonzero', 'argsort', 'repeat', 'diagonal', 'round', 'conj', 'std', 'var'):
            return self.call_ext('numpy.' + name, [o] + list(args), kw, st)
        if name == 'fill':
            r = self.rd(args[0], st)
            if isinstance(o, SArr):
                self.store_all(o, r, st)
            else:
                self.ip.write(o, np.broadcast_to(r, o.shape), st)
            return None
        if name == 'tolist':
            if isinstance(o, (Arr, View)) and len(o.shape) >= 1:
                def nest(c):
                    return self.ip.lst([nest(x) if isinstance(x, np.ndarray) else x for x in c], st)
                return nest(self.ip.cells(o, st))
            return Opq(('tolist', self.ip.key(o, st)))
        if name == 'item':
            return self.num(o, st) if not args else self.getitem(o, args[0], st)
        if name == 'tobytes':
            return Opq(('bytes', self.ip.key(o, st)))
        if name == 'view':
            return o
        if name in ('tobsr', 'tocsr', 'tocsc', 'tocoo', 'todok', 'tolil', 'toarray', 'todense', 'asformat'):
            return o
        if name == 'multiply':
            return self.call_ext('numpy.multiply', [o] + list(args), kw, st)
        raise Unsupported('array method %s' % name)

    def ctor_noinit(self, cls, o, args, kw, st):
        # dataclass style
        names = []
        for n in cls.node.body:
            import ast
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                names.append((n.target.id, n.value))
        f = dict(st.heap[o.oid])
        for (nm, dv), v in itertools.zip_longest(names, args, fillvalue=None):
            if nm is None:
                break
            if v is not None:
                f[nm] = v
        for nm, dv in names:
            if nm in kw:
                f[nm] = kw[nm]
        st.heap[o.oid] = f

    # -- external calls -----------------------------------------------------------------
    def opaque(self, path, args, kw, st):
        ip = self.ip
        ip.unmodelled[path] = ip.unmodelled.get(path, 0) + 1
        ip.event('ext', st, (path, tuple(args), dict(kw)))
        if path.startswith('numpy.random.') or path.startswith('random.'):
            # another value in every call
            if ip.loopctx:
                args = list(args) + [('drawn', ip.loc) + tuple(lift(l.k) for l in ip.loopctx)]
            else:
                ip.fresh += 1
                args = list(args) + [('drawn', str(ip.fresh))]
        return Opq(('ext', path) + tuple(ip.key(a, st) for a in args) + tuple((k, ip.key(v, st)) for k, v in sorted(kw.items())))

    def call_ext(self, path, args, kw, st):
        m = self.ip.models.get(path)
        if m is not None:
            return m(self.ip, st, args, kw)
        if path.startswith('numpy.') or path.startswith('math.') or path.startswith('scipy.') or path.startswith('builtins.') or path.startswith('collections.'):
            mod, name = path.rsplit('.', 1)
            h = getattr(self, 'x_' + path.replace('.', '_'), None)
            if h is None and mod in ('numpy', 'math'):
                h = getattr(self, 'n_' + name, None)
            if h is not None:
                if any(isinstance(a, Choice) for a in args) and not path.startswith('builtins.'):
                    for i, a in enumerate(args):
                        if isinstance(a, Choice):
                            return self.ip.mapchoice(a, lambda x, s, i=i: self.call_ext(path, args[:i] + [x] + args[i + 1:], kw, s), st)
                try:
                    return h(args, kw, st)
                except Unsupported as e:
                    if any(isinstance(a, Opq) for a in args):
                        return self.opaque(path, args, kw, st)
                    raise
            if mod in ('numpy', 'math') and name in SCALAR_FUNS:
                fn = SCALAR_FUNS[name]
                return self.emap(lambda x: tm.fun(fn, x), st, args[0])
            if path == 'scipy.linalg.expm':
                pass
        if path in ('time.perf_counter', 'time.time', 'time.monotonic', 'time.process_time'):
            self.clock = getattr(self, 'clock', 0) + 1
            return tm.sym('clock%d' % self.clock)
        if path in NOOPS:
            return None
        if path.startswith('os.path.') and path[8:] in ('join', 'isabs', 'splitext', 'split', 'basename', 'dirname', 'normpath') and \
                args and all(isinstance(x, str) for x in args) and not kw:
            v = getattr(posixpath, path[8:])(*args)
            return ip_const(v)
        if path in ('numba.prange', 'numba.range'):
            return self.x_builtins_range(args, kw, st)
        if path in ('itertools.combinations',):
            return self.x_combinations(args, kw, st)
        if path in ('itertools.product', 'itertools.permutations'):
            return self.x_product(path, args, kw, st)
        if path in ('copy.deepcopy', 'copy.copy'):
            v = args[0]
            if isinstance(v, (Arr, View, SArr)):
                return self.n_copy([v], {}, st)
            if isinstance(v, Lst) or isinstance(v, Dct):
                oid = self.ip.new_oid()
                st.heap[oid] = self.ip.content(v.oid, st)
                return type(v)(oid) if isinstance(v, Dct) else Lst(oid, v.kind)
            if isinstance(v, (T, B, str)) or v is None:
                return v
            if isinstance(v, Obj):
                oid = self.ip.new_oid()
                st.heap[oid] = dict(self.ip.content(v.oid, st))
                return Obj(oid, v.cls)
        if path in ('collections.defaultdict', 'collections.OrderedDict'):
            oid = self.ip.new_oid()
            st.heap[oid] = LContent(None, ())
            if path.endswith('defaultdict') and args and args[0] is not None:
                self.factories[oid] = args[0]
            return Dct(oid)
        if path.startswith('numba.') and args and isinstance(args[0], Fn):
            return args[0]
        return self.opaque(path, args, kw, st)

    # builtins
    def x_builtins_len(self, a, kw, st):
        return self.length(a[0], st)

    def x_builtins_range(self, a, kw, st):
        a = [self.num(x, st) for x in a]
        if len(a) == 1:
            return Rng(ZERO, a[0], ONE)
        if len(a) == 2:
            return Rng(a[0], a[1], ONE)
        return Rng(*a)

    def x_builtins_slice(self, a, kw, st):
        a = list(a)
        if len(a) == 1:
            return Slc(None, a[0], None)
        return Slc(a[0], a[1], a[2] if len(a) > 2 else None)

    def x_builtins_enumerate(self, a, kw, st):
        start = self.num(a[1], st) if len(a) > 1 else (self.num(kw['start'], st) if 'start' in kw else ZERO)
        out = []
        base = start
        for s in self.iterate(a[0], st):
            if s[0] == 'c':
                out.append(('c', s[1], (base, s[2])))
                base = base + self.ip.b2t(s[1])
            else:
                out.append(('s', s[1], (lambda k, s2, s=s, b=base: (b + k, s[2](k, s2)))) + tuple(s[3:]))
                base = base + lift(s[1])
        return It(out)

    def x_builtins_zip(self, a, kw, st):
        its = [self.iterate(x, st) for x in a]
        if all(all(s[0] == 'c' and s[1] is TRUE for s in it) for it in its):
            n = min(len(it) for it in its)
            return It([('c', TRUE, tuple(it[i][2] for it in its)) for i in range(n)])
        if all(len(it) == 1 and it[0][0] == 's' and len(it[0]) == 3 for it in its):
            n = its[0][0][1]
            for it in its[1:]:
                if it[0][1] is not n:
                    n = tm.fmin(lift(n), lift(it[0][1]))
            return It([('s', n, lambda k, s2: tuple(it[0][2](k, s2) for it in its))])
        # mixed: index everything
        n = None
        for x in a:
            m = self.length(x, st)
            n = m if n is None or n is m else tm.fmin(n, m)
        return It([('s', n, lambda k, s2: tuple(self.getitem(x, k, s2) for x in a))])

    def x_combinations(self, a, kw, st):
        segs = self.iterate(a[0], st)
        r = cint(a[1] if len(a) > 1 else kw['r'])
        if all(s[0] == 'c' and s[1] is TRUE for s in segs):
            return It([('c', TRUE, tuple(c)) for c in itertools.combinations([s[2] for s in segs], r)])
        if len(segs) == 1 and r == 2:
            s = segs[0]
            n = lift(s[1])

            def el(k, s2):
                i, j = tm.app('pair0', n, k), tm.app('pair1', n, k)
                return (s[2](i, s2), s[2](j, s2))
            return It([('s', n * (n - ONE) / lift(2), el)])
        return self.opaque('itertools.combinations', a, kw, st)

    def x_product(self, path, a, kw, st):
        its = [self.iterate(x, st) for x in a]
        rep = cint(kw['repeat']) if 'repeat' in kw else 1
        if all(all(s[0] == 'c' and s[1] is TRUE for s in it) for it in its) and path.endswith('product') and rep is not None:
            return It([('c', TRUE, tuple(x[2] for x in c)) for c in itertools.product(*(its * rep))])
        return self.opaque(path, a, kw, st)

    def x_builtins_reversed(self, a, kw, st):
        segs = self.iterate(a[0], st)
        if all(s[0] == 'c' for s in segs):
            return It(segs[::-1])
        if len(segs) == 1:
            s = segs[0]
            n = lift(s[1])
            return It([('s', n, lambda k, s2: s[2](n - ONE - k, s2))])
        raise Unsupported('reversed')

    def x_builtins_list(self, a, kw, st):
        if not a:
            return self.ip.lst([], st)
        if isinstance(a[0], Lst):
            oid = self.ip.new_oid()
            st.heap[oid] = self.ip.content(a[0].oid, st)
            return Lst(oid)
        v = self.to_list(a[0], st)
        return v

    def x_builtins_tuple(self, a, kw, st):
        if not a:
            return ()
        segs = self.iterate(a[0], st)
        if all(s[0] == 'c' and s[1] is TRUE for s in segs):
            return tuple(s[2] for s in segs)
        return self.x_builtins_list(a, kw, st)

    def x_builtins_set(self, a, kw, st):
        oid = self.ip.new_oid()
        st.heap[oid] = LContent(None, ())
        o = Lst(oid, 'set')
        if a:
            self.list_extend_quiet(o, a[0], st)
        return o
    x_builtins_frozenset = x_builtins_set

    def x_builtins_dict(self, a, kw, st):
        oid = self.ip.new_oid()
        st.heap[oid] = self.ip.content(a[0].oid, st) if a and isinstance(a[0], Dct) else LContent(None, ())
        d = Dct(oid)
        if a and not isinstance(a[0], Dct):
            for g in self.iterate(a[0], st):
                if g[0] != 'c' or not tm.implies(st.pc, g[1]):
                    raise Unsupported('dictionary from pairs of unknown content')
                k, v = self.unpack(g[2], 2, st)
                self.dict_set(d, k, v, st)
        for k, v in kw.items():
            self.dict_set(d, k, v, st)
        return d

    def x_builtins_float(self, a, kw, st):
        if not a:
            return ZERO
        if isinstance(a[0], str):
            try:
                return lift(float(a[0]))
            except ValueError:
                raise Dead()
        if isinstance(a[0], Opq):
            return tm.app('float', a[0].key)
        return self.num(a[0], st)

    def x_builtins_int(self, a, kw, st):
        if not a:
            return ZERO
        if isinstance(a[0], str):
            try:
                return lift(int(a[0]))
            except ValueError:
                raise Dead()
        if isinstance(a[0], Opq):
            return tm.app('int', a[0].key)
        t = self.num(a[0], st)
        if t.const() is None and all(isinstance(c, int) for c in t.m.values()) and all(e > 0 and (self.ip.is_int_atom(x) or x.op in ('floor', 'ceil', 'int', 'round')) for k in t.m for x, e in k):
            return t
        return tm.fun('int', t)

    def x_builtins_bool(self, a, kw, st):
        return self.ip.truth(a[0], st) if a else FALSE

    def x_builtins_str(self, a, kw, st):
        if not a:
            return ''
        if isinstance(a[0], str):
            return a[0]
        c = cint(a[0]) if isinstance(a[0], T) else None
        if c is not None:
            return str(c)
        return Opq(('str', self.ip.key(a[0], st)), 'str')
    x_builtins_repr = x_builtins_str

    def x_builtins_abs(self, a, kw, st):
        return self.n_abs(a, kw, st)

    def x_builtins_round(self, a, kw, st):
        return self.emap(lambda x: tm.fun('round', x) if x.const() is None else lift(round(x.const())), st, a[0])

    def x_builtins_pow(self, a, kw, st):
        return self.binop('Pow', a[0], a[1], st)

    def x_builtins_divmod(self, a, kw, st):
        return (self.binop('FloorDiv', a[0], a[1], st), self.binop('Mod', a[0], a[1], st))

    def _fold(self, a, kw, st, f, name):
        if len(a) == 1:
            segs = self.iterate(a[0], st)
            if 'key' in kw:
                return Opq((name, self.ip.key(a[0], st), self.ip.key(kw['key'], st)))
            if all(x[0] == 'c' and x[1] is TRUE for x in segs):
                p = self.sort2([x[2] for x in segs], st)
                if p is not None:
                    return p[0 if name == 'min' else 1]
            r = None
            for s in segs:
                if s[0] == 'c':
                    x = self.num(s[2], st)
                    y = x if r is None else f(r, x)
                    r = y if s[1] is TRUE or r is None else tm.ite(s[1], y, r)
                else:
                    k, g = self.bound(lambda kk: self.num(s[2](kk, st), st) if name == 'max' else -self.num(s[2](kk, st), st))
                    x = tm.app('supr', k, lift(s[1]), g)
                    x = x if name == 'max' else -x
                    r = x if r is None else f(r, x)
            if r is None:
                raise Dead()
            return r
        p = self.sort2(a, st)
        if p is not None:
            return p[0 if name == 'min' else 1]
        r = self.num(a[0], st)
        for x in a[1:]:
            r = f(r, self.num(x, st))
        return r

    def x_builtins_min(self, a, kw, st):
        return self._fold(a, kw, st, tm.fmin, 'min')

    def x_builtins_max(self, a, kw, st):
        return self._fold(a, kw, st, tm.fmax, 'max')

    def x_builtins_sum(self, a, kw, st):
        r = a[1] if len(a) > 1 else ZERO
        for s in self.iterate(a[0], st):
            if s[0] == 'c':
                y = self.binop('Add', r, s[2], st)
                r = y if s[1] is TRUE else self.ip.join(s[1], y, r, st, st, st)
            else:
                g0 = s[3] if len(s) > 3 and s[3] else None
                e = s[2](lift(tm.atom('sym', 'ιprobe')), st.fork())
                if self.isarr(e) and len(e.shape):
                    def cell(idx, s=s, g0=g0):
                        def one(kk):
                            s2 = st.fork()
                            v = self.at(self.rd(s[2](kk, s2), s2), idx)
                            return tm.ite(g0(kk), v, ZERO) if g0 else v
                        return self.bound_sum(s[1], one)
                    r = self.binop('Add', r, self.wrap(Sy(tuple(e.shape), cell), st), st)
                    continue
                r = self.binop('Add', r, self.bound_sum(s[1], lambda kk: tm.ite(g0(kk), self.num(s[2](kk, st), st), ZERO) if g0 else self.num(s[2](kk, st), st)), st)
        return r

    def _anyall(self, a, st, is_any):
        v = a[0]
        if self.isarr(v):
            return self.reduce_bool(v, st, is_any)
        r = FALSE if is_any else TRUE
        for s in self.iterate(v, st):
            if s[0] == 'c':
                t = self.ip.truth(s[2], st)
                r = r | (s[1] & t) if is_any else r & (~s[1] | t)
            else:
                self.ip.fresh += 1
                k = tm.atom('sym', 'ιa%d' % len(self.ip.loopctx))
                t = self.ip.truth(s[2](lift(k), st), st)
                g = s[3](lift(k)) if len(s) > 3 and s[3] else TRUE
                if is_any:
                    r = r | self.ip.exists(k, lift(s[1]), t & g)
                else:
                    r = r & ~self.ip.exists(k, lift(s[1]), ~t & g)
        return r

    def reduce_bool(self, v, st, is_any):
        r = self.rd(v, st)
        if isinstance(r, Sy):
            ks = []
            idx = []
            for i, d in enumerate(r.shape):
                k = tm.atom('sym', 'ιa%d_%d' % (len(self.ip.loopctx), i))
                ks.append((k, d))
                idx.append(lift(k))
            el = r.fn(tuple(idx))
            if tm.unknowns(el):
                # the elements cannot be told apart: an uninterpreted predicate of the array
                return tm.pred('anyof' if is_any else 'allof', self.ip.intern(self.ip.key(v, st)))
            t = ~tm.eq0(el)
            if not is_any:
                t = ~t
            for k, d in reversed(ks):
                t = self.ip.exists(k, lift(d), t)
            return t if is_any else ~t
        out = FALSE if is_any else TRUE
        for x in r.ravel():
            c = ~tm.eq0(x)
            out = out | c if is_any else out & c
        return out

    def x_builtins_any(self, a, kw, st):
        return self._anyall(a, st, True)

    def x_builtins_all(self, a, kw, st):
        return self._anyall(a, st, False)

    def x_builtins_isinstance(self, a, kw, st):
        v, c = a
        if isinstance(v, Choice):
            return self.cmp_choice(v, lambda x, s: self.x_builtins_isinstance([x, c], {}, s), st)
        cs = c if isinstance(c, tuple) else (c,)
        r = FALSE
        for k in cs:
            if isinstance(k, Cls):
                if isinstance(v, Obj) and v.cls is not None:
                    r = r | (TRUE if any(m.node is k.node for m in self.ip.mro(v.cls)) else FALSE)
                elif isinstance(v, Opq):
                    r = r | tm.pred('isinst', v.key, k.name)
            elif isinstance(k, Ext):
                n = k.path.split('.')[-1]
                if isinstance(v, T):
                    isint = v.const() is not None and isinstance(v.const(), int)
                    if n in ('float', 'floating', 'float64', 'Number', 'Real', 'number'):
                        r = TRUE
                    elif n in ('int', 'integer'):
                        r = r | (TRUE if isint or any(True for _ in []) else FALSE)
                elif isinstance(v, str):
                    r = r | (TRUE if n == 'str' else FALSE)
                elif isinstance(v, B):
                    r = r | (TRUE if n in ('bool', 'int') else FALSE)
                elif isinstance(v, (Arr, View, SArr)):
                    r = r | (TRUE if n == 'ndarray' else FALSE)
                elif isinstance(v, Lst):
                    r = r | (TRUE if n == v.kind else FALSE)
                elif isinstance(v, Dct):
                    r = r | (TRUE if n == 'dict' else FALSE)
                elif isinstance(v, tuple):
                    r = r | (TRUE if n == 'tuple' else FALSE)
                elif isinstance(v, Opq):
                    if v.ty == 'str':
                        r = r | (TRUE if n == 'str' else FALSE)
                    else:
                        r = r | tm.pred('isinst', v.key, n)
        return r

    def x_builtins_type(self, a, kw, st):
        v = a[0]
        if isinstance(v, Obj) and v.cls is not None:
            return v.cls
        if isinstance(v, str):
            return Ext('builtins.str')
        if isinstance(v, Lst):
            return Ext('builtins.' + v.kind)
        if isinstance(v, Dct):
            return Ext('builtins.dict')
        if isinstance(v, tuple):
            return Ext('builtins.tuple')
        if self.isarr(v):
            return Ext('numpy.ndarray')
        if isinstance(v, T):
            return Ext('builtins.float')
        if isinstance(v, B):
            return Ext('builtins.bool')
        return Opq(('type', self.ip.key(v, st)))

    def x_builtins_dir(self, a, kw, st):
        if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls is not None and not a[0].lazy:
            names = set(self.ip.content(a[0].oid, st))
            for c in self.ip.mro(a[0].cls):
                for n in c.node.body:
                    if isinstance(n, ast.FunctionDef):
                        names.add(n.name)
                    elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                        names |= {t.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
            names |= {n for n in dir(object()) if n.startswith('__')} | {'__dict__', '__module__', '__weakref__'}
            return self.ip.lst(sorted(names), st)
        return Opq(('dir', self.ip.key(a[0], st) if a else None), 'list')

    def x_builtins_hasattr(self, a, kw, st):
        o, n = a
        if isinstance(o, Obj):
            try:
                self.ip.getattr(o, n, st.fork())
                return TRUE
            except Unsupported:
                return FALSE
        if isinstance(o, NObj):
            return TRUE if n in o.attrs else FALSE
        return tm.pred('hasattr', self.ip.key(o, st), n)

    def x_builtins_getattr(self, a, kw, st):
        if isinstance(a[1], str):
            if len(a) > 2 and isinstance(a[0], Obj):
                try:
                    return self.ip.getattr(a[0], a[1], st)
                except Unsupported:
                    return a[2]
            return self.ip.getattr(a[0], a[1], st)
        return Opq(('getattr', self.ip.key(a[0], st), self.ip.key(a[1], st)))

    def x_builtins_setattr(self, a, kw, st):
        if isinstance(a[1], str):
            self.ip.setattr(a[0], a[1], a[2], st)
            return None
        raise Unsupported('setattr with computed name')

    def sort2(self, xs, st):
        """two scalars or two strings in order"""
        if len(xs) == 2 and all(isinstance(x, T) for x in xs):
            return [tm.fmin(*xs), tm.fmax(*xs)]
        if len(xs) == 2 and all(isinstance(x, (Opq, str)) for x in xs):
            x, y = xs
            g = tm.lt(self.num(y, st), self.num(x, st)) if not (isinstance(x, str) and isinstance(y, str)) else (TRUE if y < x else FALSE)
            return [self.ip.join(g, y, x, st, st, st), self.ip.join(g, x, y, st, st, st)]
        return None

    def order_of(self, ks, st):
        """stable ascending order of keys: constants, or values ordered by the hypothesis the rule set (ip.order)"""
        num, parts = [], []
        for k in ks:
            if isinstance(k, str):
                num.append(k)
                continue
            if isinstance(k, (tuple, Lst)):
                z, part = [], False
                for y in k if isinstance(k, tuple) else [s[2] for s in self.iterate(k, st)]:
                    if not isinstance(y, str):
                        try:
                            y = self.num(y, st).const()
                        except Unsupported:
                            y = None
                    if y is None:
                        part = True
                        break
                    z.append(y)
                # what is not constant only matters between equal beginnings
                z = tuple(z)
                for x, xpart in parts:
                    m = min(len(x), len(z))
                    if (part or xpart) and x[:m] == z[:m]:
                        return None
                parts.append((z, part))
                num.append(z)
                continue
            try:
                k = self.num(k, st)
            except Unsupported:
                return None
            c = k.const()
            if c is None:
                order = getattr(self.ip, 'order', None)
                if order is None:
                    return None
                c = order(k)
            num.append(c)
        try:
            return sorted(range(len(num)), key=lambda i: num[i])
        except TypeError:
            return None

    def x_numpy_lexsort(self, a, kw, st):
        keys = []
        for s in self.iterate(a[0], st):
            if s[0] != 'c' or s[1] is not TRUE:
                return self.opaque('numpy.lexsort', a, kw, st)
            c = self.rd(s[2], st)
            if isinstance(c, Sy):
                return self.opaque('numpy.lexsort', a, kw, st)
            keys.append([x.const() for x in c.ravel()])
        if not keys or any(x is None for k in keys for x in k):
            return self.opaque('numpy.lexsort', a, kw, st)
        n = len(keys[0])
        o = sorted(range(n), key=lambda i: tuple(k[i] for k in reversed(keys)))
        return self.ip.arr(np.array([lift(i) for i in o], dtype=object), st)

    def x_builtins_sorted(self, a, kw, st):
        segs = self.iterate(a[0], st)
        if all(s[0] == 'c' and s[1] is TRUE for s in segs) and not kw:
            xs = [s[2] for s in segs]
            if all(isinstance(x, str) for x in xs):
                return self.ip.lst(sorted(xs), st)
            cs = [x.const() if isinstance(x, T) else None for x in xs]
            if all(c is not None for c in cs):
                return self.ip.lst([lift(c) for c in sorted(cs)], st)
            p = self.sort2(xs, st)
            if p is not None:
                return self.ip.lst(p, st)
        if all(s[0] == 'c' and s[1] is TRUE for s in segs) and set(kw) <= {'key', 'reverse'} and kw.get('reverse', FALSE) in (TRUE, FALSE):
            xs = [s[2] for s in segs]
            ks = [self.ip.call(kw['key'], [x], {}, st) for x in xs] if kw.get('key') is not None else list(xs)
            o = self.order_of(ks, st)
            if o is not None:
                o = o if kw.get('reverse', FALSE) is FALSE else o[::-1]
                return self.ip.lst([xs[i] for i in o], st)
        v = a[0] if isinstance(a[0], (Lst, Dct)) else self.to_list(a[0], st)
        key = ('sorted', self.ip.key(v, st)) + tuple((k, self.ip.key(x, st)) for k, x in kw.items())
        oid = self.ip.new_oid()
        st.heap[oid] = LContent(Coll(key, 'opq', self.length(v, st)), ())
        return Lst(oid)

    def x_collections_deque(self, a, kw, st):
        if kw or len(a) > 1:
            raise Unsupported('bounded deque')
        q = self.ip.lst([], st)
        if a:
            self.list_extend_quiet(q, a[0], st)
        return q

    def x_builtins_map(self, a, kw, st):
        out = []
        for s in self.iterate(a[1], st):
            if s[0] == 'c':
                out.append(('c', s[1], self.ip.call(a[0], [s[2]], {}, st)))
            else:
                out.append(('s', s[1], (lambda k, s2, s=s: self.ip.call(a[0], [s[2](k, s2)], {}, s2))) + tuple(s[3:]))
        return It(out)

    def x_builtins_print(self, a, kw, st):
        return None

    def x_builtins_iter(self, a, kw, st):
        return It(self.iterate(a[0], st))

    def x_builtins_id(self, a, kw, st):
        return Opq(('id', self.ip.key(a[0], st)))

    def x_builtins_callable(self, a, kw, st):
        return TRUE if isinstance(a[0], (Fn, Bound, Ext, Cls)) else tm.pred('callable', self.ip.key(a[0], st))

    # numpy constructors
    def shape_of(self, s, st):
        if isinstance(s, (T, Opq)):
            return (self.num(s, st),)
        if isinstance(s, Lst):
            s = tuple(x[2] for x in self.iterate(s, st))
        if isinstance(s, tuple):
            return tuple(self.num(x, st) for x in s)
        raise Unsupported('shape %r' % (s,))

    def filled(self, shape, val, st, bkey):
        sh = tuple(cint(d) if cint(d) is not None else d for d in shape)
        if all(isinstance(d, int) for d in sh):
            out = np.empty(sh, dtype=object)
            out.fill(val)
            if sh == ():
                return val
            return self.ip.arr(out, st)
        return self.ip.sarr(lambda idx: val, sh, st, bkey)

    def n_zeros(self, a, kw, st):
        return self.filled(self.shape_of(a[0] if a else kw['shape'], st), ZERO, st, ('const', ZERO))

    def n_ones(self, a, kw, st):
        return self.filled(self.shape_of(a[0] if a else kw['shape'], st), ONE, st, ('const', ONE))

    def n_empty(self, a, kw, st):
        sh = self.shape_of(a[0], st)
        self.ip.fresh += 1
        n = self.ip.fresh
        cs = [cint(d) for d in sh]
        if all(c is not None for c in cs):
            out = np.empty(cs, dtype=object)
            for i in np.ndindex(*cs):
                out[i] = tm.app('uninit', n, *i)
            return self.ip.arr(out, st)
        return self.ip.sarr(lambda idx: tm.app('uninit', n, *idx), tuple(c if c is not None else d for c, d in zip(cs, sh)), st, ('uninit', n))

    def n_full(self, a, kw, st):
        v = self.num(a[1] if len(a) > 1 else kw['fill_value'], st)
        return self.filled(self.shape_of(a[0], st), v, st, ('const', v))

    def _like(self, v, val, st):
        r = self.rd(v, st)
        return self.filled(tuple(lift(d) for d in r.shape), val, st, ('const', val))

    def n_zeros_like(self, a, kw, st):
        return self._like(a[0], ZERO, st)

    def n_ones_like(self, a, kw, st):
        return self._like(a[0], ONE, st)

    def n_full_like(self, a, kw, st):
        return self._like(a[0], self.num(a[1], st), st)

    def n_eye(self, a, kw, st):
        n = self.num(a[0], st)
        c = cint(n)
        m = cint(a[1]) if len(a) > 1 and isinstance(a[1], T) else c
        if c is None:
            return self.ip.sarr(lambda idx: tm.ite(tm.eqB(idx[0], idx[1]), ONE, ZERO), (n, n), st, ('eye',))
        out = np.empty((c, m), dtype=object)
        for i in np.ndindex(c, m):
            out[i] = ONE if i[0] == i[1] else ZERO
        return self.ip.arr(out, st)
    n_identity = n_eye

    def n_array(self, a, kw, st):
        v = a[0]
        if isinstance(v, (Rng,)):
            v = self.to_list(v, st)
        if isinstance(v, Opq):
            return Opq(('array', v.key), 'arr')
        if isinstance(v, (T, B)):
            return v
        if isinstance(v, Mat):
            if v.kind in ('rowsum', 'colsum') and v.shape:
                key, ax = self.ip.key(v, st), 0 if v.kind == 'rowsum' else 1
                return self.wrap(Sy(v.shape, lambda idx: tm.app('matvec', key, 'one', idx[ax])), st)
            if v.kind == 'dense':
                return self.n_copy([v.args[0]], {}, st)
            return v
        try:
            r = self.rd(v, st)
        except Unsupported:
            return Opq(('array', self.ip.key(v, st)), 'arr')
        if isinstance(r, Sy):
            k = None
            return self.ip.sarr(r.fn, r.shape, st)
        return self.ip.arr(r.copy(), st)

    def n_asarray(self, a, kw, st):
        if self.isarr(a[0]):
            return a[0]
        return self.n_array(a, kw, st)
    n_ascontiguousarray = n_asarray
    n_atleast_1d = n_asarray

    def n_copy(self, a, kw, st):
        v = a[0]
        if isinstance(v, (T, B)) or isinstance(v, Opq):
            return v
        r = self.rd(v, st)
        if isinstance(r, Sy):
            c = self.ip.content(v.oid, st) if isinstance(v, SArr) and v.imap is None else None
            if c is not None:
                oid = self.ip.new_oid()
                st.heap[oid] = c
                return SArr(oid, v.shape)
            return self.ip.sarr(r.fn, r.shape, st)
        return self.ip.arr(r.copy(), st) if r.shape else r[()]

    def n_astype(self, a, kw, st):
        t = a[1] if len(a) > 1 else kw.get('dtype')
        n = t.path.split('.')[-1] if isinstance(t, Ext) else ''
        v = self.n_copy([a[0]], {}, st)
        if n.startswith('int') or n == 'intc':
            return self.emap(lambda x: self.x_builtins_int([x], {}, st) if not self.is_bool_cell(x) else x, st, v)
        return v

    def n_trunc(self, a, kw, st):
        return self.emap(lambda x: self.x_builtins_int([x], {}, st), st, a[0])
    n_fix = n_trunc

    def n_arange(self, a, kw, st):
        r = self.x_builtins_range(a, kw, st)
        c = self.rng_rd(r, st)
        return self.wrap(c, st)

    def n_linspace(self, a, kw, st):
        lo, hi = self.num(a[0], st), self.num(a[1], st)
        n = self.num(a[2] if len(a) > 2 else kw.get('num', lift(50)), st)
        ep = kw.get('endpoint', TRUE)
        d = n - ONE if ep is TRUE else n
        return self.wrap(Sy((n,), lambda idx: lo + (hi - lo) * idx[0] / d), st)

    def out(self, r, kw, st):
        o = kw.get('out')
        if o is None:
            return r
        rr = self.rd(r, st)
        if isinstance(o, tuple):
            o = o[0]
        if isinstance(o, SArr):
            self.store_all(o, rr, st)
        else:
            self.ip.write(o, rr, st)
        return o

    def _bin(self, op):
        def f(a, kw, st):
            kw = dict(kw)
            if len(a) > 2:
                kw['out'] = a[2]
            return self.out(self.binop(op, a[0], a[1], st), kw, st)
        return f

    def n_add(self, a, kw, st):
        return self._bin('Add')(a, kw, st)

    def n_subtract(self, a, kw, st):
        return self._bin('Sub')(a, kw, st)

    def n_multiply(self, a, kw, st):
        if isinstance(a[0], Mat) or isinstance(a[1], Mat):
            m = a[0] if isinstance(a[0], Mat) else a[1]
            return Mat('ewmul', (a[0], a[1]), m.shape)
        return self._bin('Mult')(a, kw, st)

    def n_divide(self, a, kw, st):
        return self._bin('Div')(a, kw, st)
    n_true_divide = n_divide

    def n_power(self, a, kw, st):
        return self._bin('Pow')(a, kw, st)
    n_pow = n_power

    def n_mod(self, a, kw, st):
        return self._bin('Mod')(a, kw, st)
    def n_fmod(self, a, kw, st):
        return self.emap(lambda x, y: tm.app('cfmod', x, y), st, a[0], a[1])
    n_remainder = n_mod

    def n_negative(self, a, kw, st):
        return self.unop('USub', a[0], st)

    def n_square(self, a, kw, st):
        return self.emap(lambda x: x * x, st, a[0])

    def n_sqrt(self, a, kw, st):
        return self.out(self.emap(tm.sqrt, st, a[0]), kw, st)

    def n_abs(self, a, kw, st):
        return self.emap(tm.absval, st, a[0])
    n_fabs = n_abs
    n_absolute = n_abs

    def n_arctan2(self, a, kw, st):
        return self.emap(lambda y, x: tm.app('atan2', y, x), st, a[0], a[1])
    n_atan2 = n_arctan2

    def n_maximum(self, a, kw, st):
        return self.out(self.emap(tm.fmax, st, a[0], a[1]), kw, st)
    n_fmax = n_maximum

    def n_minimum(self, a, kw, st):
        return self.out(self.emap(tm.fmin, st, a[0], a[1]), kw, st)
    n_fmin = n_minimum

    def n_clip(self, a, kw, st):
        lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min'))
        hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max'))
        r = a[0]
        if lo is not None:
            r = self.emap(tm.fmax, st, r, lo)
        if hi is not None:
            r = self.emap(tm.fmin, st, r, hi)
        return self.out(r, kw, st)

    def n_radians(self, a, kw, st):
        return self.emap(lambda x: x * tm.PI / lift(180), st, a[0])
    n_deg2rad = n_radians

    def n_degrees(self, a, kw, st):
        return self.emap(lambda x: x * lift(180) / tm.PI, st, a[0])
    n_rad2deg = n_degrees

    def n_isfinite(self, a, kw, st):
        r = self.emap(lambda x: self.ip.b2t(TRUE if x.const() is not None else tm.pred('finite', x)), st, a[0], raw=True)
        if isinstance(r, np.ndarray) and r.shape == ():
            return ~tm.eq0(r[()])
        return self.wrap(r, st)

    def n_isnan(self, a, kw, st):
        r = self.emap(lambda x: self.ip.b2t(FALSE if x.const() is not None else tm.pred('nan', x)), st, a[0], raw=True)
        if isinstance(r, np.ndarray) and r.shape == ():
            return ~tm.eq0(r[()])
        return self.wrap(r, st)

    def n_dot(self, a, kw, st):
        x, y = a[0], a[1]
        if isinstance(x, T) or isinstance(y, T):
            return self.binop('Mult', x, y, st)
        if len(a) > 2:
            kw = {**kw, 'out': a[2]}
        return self.out(self.matmul(x, y, st), kw, st)

    def n_matmul(self, a, kw, st):
        return self.out(self.matmul(a[0], a[1], st), kw, st)

    def n_inner(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        if len(x.shape) == 2 or len(y.shape) == 2:
            return self.contract(x, y, [len(x.shape) - 1], [len(y.shape) - 1], st)
        return self.n_dot(a, kw, st)

    def n_vdot(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        n = range(len(x.shape))
        return self.contract(x, y, list(n), list(n), st) if len(x.shape) == len(y.shape) else self.n_dot(a, kw, st)

    def contract(self, x, y, ax, ay, st):
        """sum of products over the paired axes"""
        fx = [i for i in range(len(x.shape)) if i not in ax]
        fy = [i for i in range(len(y.shape)) if i not in ay]
        sh = tuple(x.shape[i] for i in fx) + tuple(y.shape[i] for i in fy)

        def at(outer):
            def go(todo, kx, ky):
                if not todo:
                    ix = {**{i: o for i, o in zip(fx, outer)}, **kx}
                    iy = {**{i: o for i, o in zip(fy, outer[len(fx):])}, **ky}
                    return self.at(x, tuple(ix[i] for i in range(len(x.shape)))) * self.at(y, tuple(iy[i] for i in range(len(y.shape))))
                (i, j) = todo[0]
                n = cint(x.shape[i])
                if n is None:
                    n = cint(y.shape[j])
                if n is not None:
                    t = ZERO
                    for k in range(n):
                        t = t + go(todo[1:], {**kx, i: lift(k)}, {**ky, j: lift(k)})
                    return t
                return self.bound_sum(lift(x.shape[i]), lambda k: go(todo[1:], {**kx, i: k}, {**ky, j: k}))
            return go(list(zip(ax, ay)), {}, {})
        if not sh:
            return at(())
        return self.wrap(Sy(sh, at), st)

    def n_tensordot(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        axes = kw.get('axes', a[2] if len(a) > 2 else lift(2))
        n = cint(axes) if isinstance(axes, (int, T)) else None
        if n is not None:
            ax = list(range(len(x.shape) - n, len(x.shape)))
            ay = list(range(n))
        else:
            if not isinstance(axes, (tuple, list)):
                axes = self.ip.items_of(axes, st) if hasattr(self.ip, 'items_of') else [z[2] for z in self.iterate(axes, st)]
            ax, ay = [[cint(self.num(v, st)) for v in (z if isinstance(z, (tuple, list)) else [q[2] for q in self.iterate(z, st)] if isinstance(z, Lst) else [z])] for z in axes]
        return self.contract(x, y, [i % len(x.shape) for i in ax], [i % len(y.shape) for i in ay], st)

    def n_einsum(self, a, kw, st):
        spec = a[0]
        if not isinstance(spec, str) or '...' in spec:
            return self.opaque('numpy.einsum', a, kw, st)
        spec = spec.replace(' ', '')
        ins, out = spec.split('->') if '->' in spec else (spec, None)
        ins = ins.split(',')
        if out is None:
            al = ''.join(ins)
            out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        xs = [self.rd(v, st) for v in a[1:]]
        dim = {}
        for nm, x in zip(ins, xs):
            for c, d in zip(nm, x.shape):
                if c not in dim or cint(dim[c]) is None:
                    dim[c] = d
        inner = [c for c in dim if c not in out]

        def at(outer):
            def go(todo, env):
                if not todo:
                    p = ONE
                    for nm, x in zip(ins, xs):
                        p = p * self.at(x, tuple(env[c] for c in nm))
                    return p
                c = todo[0]
                n = cint(dim[c])
                if n is not None:
                    t = ZERO
                    for k in range(n):
                        t = t + go(todo[1:], {**env, c: lift(k)})
                    return t
                return self.bound_sum(lift(dim[c]), lambda k: go(todo[1:], {**env, c: k}))
            return go(inner, dict(zip(out, outer)))
        if not out:
            return at(())
        return self.out(self.wrap(Sy(tuple(dim[c] for c in out), at), st), kw, st)

    def _scatter(self, a, st, f):
        """ufunc.at: unbuffered in-place update, one store per index"""
        o, ix, v = a
        r = self.rd(ix, st) if not isinstance(ix, tuple) else None
        if r is None or isinstance(r, Sy):
            raise Unsupported('scatter at an index of unknown extent')
        val = self.rd(v, st)
        osh = self.rd(o, st).shape
        sh = tuple(r.shape) + tuple(osh[1:])

        def elem(full):
            if isinstance(val, T):
                return val
            k = len(val.shape)
            idx = tuple(lift(0) if cint(d) == 1 else i for d, i in zip(val.shape, full[len(full) - k:]))
            return self.at(val, idx) if k else self.at(val, ())
        for i in np.ndindex(*r.shape):
            cur = self.getitem(o, r[i], st)
            rest = [cint(d) for d in osh[1:]]
            if any(d is None for d in rest):
                raise Unsupported('scatter of rows of unknown extent')
            if not rest:
                new = f(self.num(cur, st), elem(tuple(lift(k) for k in i)))
            else:
                c = self.ip.cells(cur, st)
                new = np.empty(tuple(rest), dtype=object)
                for j in np.ndindex(*rest):
                    new[j] = f(c[j], elem(tuple(lift(k) for k in i + j)))
                new = self.ip.arr(new, st)
            self.setitem(o, r[i], new, st)
        return None

    def x_numpy_add_at(self, a, kw, st):
        return self._scatter(a, st, lambda x, y: x + y)

    def x_numpy_subtract_at(self, a, kw, st):
        return self._scatter(a, st, lambda x, y: x - y)

    def n_hypot(self, a, kw, st):
        return self.emap(lambda x, y: tm.sqrt(x * x + y * y), st, a[0], a[1])

    def _permute(self, r, perm, st):
        inv = [perm.index(i) for i in range(len(perm))]
        return self.wrap(Sy(tuple(r.shape[p] for p in perm), lambda idx: self.at(r, tuple(idx[inv[i]] for i in range(len(perm))))), st)

    def n_swapaxes(self, a, kw, st):
        r = self.rd(a[0], st)
        p = list(range(len(r.shape)))
        i, j = cint(a[1]) % len(p), cint(a[2]) % len(p)
        p[i], p[j] = p[j], p[i]
        return self._permute(r, p, st)

    def n_moveaxis(self, a, kw, st):
        r = self.rd(a[0], st)
        p = list(range(len(r.shape)))
        i, j = cint(a[1]) % len(p), cint(a[2]) % len(p)
        p.insert(j, p.pop(i))
        return self._permute(r, p, st)

    def n_broadcast_to(self, a, kw, st):
        r = self.rd(a[0], st)
        sh = [self.num(x, st) for x in (a[1] if isinstance(a[1], tuple) else (a[1],))]
        if isinstance(r, T):
            return self.wrap(Sy(tuple(sh), lambda idx: r), st)
        k = len(r.shape)
        return self.wrap(Sy(tuple(sh), lambda idx: self.at(r, tuple(lift(0) if cint(d) == 1 else i for d, i in zip(r.shape, idx[len(idx) - k:])))), st)

    def n_atleast_1d(self, a, kw, st):
        r = self.rd(a[0], st)
        return a[0] if not isinstance(r, T) and len(r.shape) >= 1 else self.n_array([(self.num(a[0], st),)], {}, st)

    def n_average(self, a, kw, st):
        if 'weights' in kw:
            return self.opaque('numpy.average', a, kw, st)
        return self.n_mean(a, kw, st)

    def n_outer(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        if isinstance(x, Sy) or isinstance(y, Sy):
            return self.wrap(Sy((x.shape[0], y.shape[0]), lambda i: self.at(x, (i[0],)) * self.at(y, (i[1],))), st)
        x, y = x.ravel(), y.ravel()
        out = np.empty((len(x), len(y)), dtype=object)
        for i in range(len(x)):
            for j in range(len(y)):
                out[i, j] = x[i] * y[j]
        return self.ip.arr(out, st)

    def n_cross(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        if isinstance(x, Sy) or isinstance(y, Sy):
            sh = self.bshape([x.shape, y.shape])

            def g(r, idx, c):
                k = len(r.shape)
                ii = idx[len(idx) - k:-1] if k > 1 else ()
                return self.at(r, ii + (lift(c),))

            def fn(idx):
                def comp(c):
                    i, j = (c + 1) % 3, (c + 2) % 3
                    return g(x, idx, i) * g(y, idx, j) - g(x, idx, j) * g(y, idx, i)
                return self.pick_list([comp(0), comp(1), comp(2)], idx[-1])
            return self.wrap(Sy(sh, fn), st)
        if x.shape[-1] == 2 and y.shape[-1] == 2:
            return x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]
        bs = np.broadcast_arrays(x, y)
        x, y = bs
        out = np.empty(x.shape, dtype=object)
        out[..., 0] = x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1]
        out[..., 1] = x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2]
        out[..., 2] = x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]
        return self.ip.arr(out, st)

    def axis_of(self, a, kw, st, pos=1):
        ax = a[pos] if len(a) > pos else kw.get('axis')
        if ax is None:
            return None
        if isinstance(ax, tuple):
            return tuple(cint(x) for x in ax)
        return cint(ax)

    def reduce(self, v, axis, st, f, symf, keep=False):
        r = self.rd(v, st)
        nd = len(r.shape)
        if axis is None:
            axes = list(range(nd))
        else:
            if nd == 0:
                raise Unsupported('reduction of a value of unknown shape')
            axes = [x % nd for x in (axis if isinstance(axis, tuple) else (axis,))]
        rest = [i for i in range(nd) if i not in axes]
        sh = tuple(r.shape[i] for i in rest)

        def red(outer):
            def go(todo, idx):
                if not todo:
                    return self.at(r, tuple(idx[i] for i in range(nd)))
                i = todo[0]
                n = cint(r.shape[i])
                if n is not None:
                    xs = [go(todo[1:], {**idx, i: lift(j)}) for j in range(n)]
                    acc = xs[0] if xs else ZERO
                    for x in xs[1:]:
                        acc = f(acc, x)
                    return acc
                return symf(lift(r.shape[i]), lambda k: go(todo[1:], {**idx, i: k}))
            return go(axes, {i: o for i, o in zip(rest, outer)})
        if not rest:
            return red(())
        res = Sy(sh, lambda idx: red(idx))
        if keep:
            ks = tuple(1 if i in axes else r.shape[i] for i in range(nd))
            res = Sy(ks, lambda idx: red(tuple(idx[i] for i in rest)))
        return self.wrap(res, st)

    def keepd(self, kw):
        return kw.get('keepdims') is TRUE

    def supr(self, N, f):
        k, g = self.bound(f)
        return tm.app('supr', k, N, g)

    def n_sum(self, a, kw, st):
        if isinstance(a[0], Mat):
            ax = cint(self.num(kw.get('axis', a[1] if len(a) > 1 else None), st)) if ('axis' in kw or len(a) > 1) else None
            m = a[0]
            x = self.cells_of(m, st)
            if x is not None and ax in (0, 1):
                t = x.sum(axis=ax)
                return self.dense(t.reshape(-1, 1) if ax == 1 else t.reshape(1, -1), st)
            if ax is None:
                return tm.app('matsum', self.ip.key(m, st))
            return Mat('rowsum' if ax == 1 else 'colsum', (m,), (m.shape[0], ONE) if ax == 1 and m.shape else ((ONE, m.shape[1]) if m.shape else None))
        if isinstance(a[0], Lst) and len(a) == 1 and not kw:
            c = self.ip.content(a[0].oid, st)
            if c.base is None and not c.stores and all(g.kind == 'e' for g in c.segs) and any(g.guard is not TRUE for g in c.segs):
                # elements that may be missing
                t = ZERO
                for g in c.segs:
                    t = t + tm.ite(g.guard, self.num(g.value, st), ZERO)
                return t
        return self.reduce(a[0], self.axis_of(a, kw, st), st, lambda x, y: x + y, self.bound_sum, self.keepd(kw))

    def n_unique(self, a, kw, st):
        r = self.rd(a[0], st)
        if isinstance(r, np.ndarray) and not kw and len(a) == 1 and all(x.const() is not None for x in r.ravel()):
            xs = sorted({x.const() for x in r.ravel()})
            out = np.empty(len(xs), dtype=object)
            for i, x in enumerate(xs):
                out[i] = lift(x)
            return self.wrap(out, st)
        return self.opaque('numpy.unique', a, kw, st)

    def n_prod(self, a, kw, st):
        return self.reduce(a[0], self.axis_of(a, kw, st), st, lambda x, y: x * y, lambda N, f: tm.app('prod', *self.bound(f), N))

    def n_round(self, a, kw, st):
        d = a[1] if len(a) > 1 else kw.get('decimals', ZERO)
        if lift(d).const() != 0:
            return self.opaque('numpy.round', a, kw, st)
        return self.call_ext('numpy.rint', [a[0]], {}, st)
    n_around = n_round

    def n_median(self, a, kw, st):
        from itertools import combinations
        ax = self.axis_of(a, kw, st)
        if ax is not None and not set(kw) - {'axis'}:
            c = self.ip.cells(a[0], st)
            c = np.moveaxis(c, int(ax), -1)
            out = np.empty(c.shape[:-1], dtype=object)
            for ix in np.ndindex(*c.shape[:-1]):
                out[ix] = self.n_median([self.ip.arr(np.array(list(c[ix]), dtype=object), st)], {}, st)
            return self.ip.arr(out, st)
        if ax is not None or kw:
            return self.opaque('numpy.median', a, kw, st)
        xs = list(self.ip.cells(a[0], st).ravel())
        if len(xs) > 9 or not xs:
            return self.opaque('numpy.median', a, kw, st)

        def nth(k):
            # the smallest of the largest of every k + 1 values
            r = None
            for c in combinations(xs, k + 1):
                m = c[0]
                for x in c[1:]:
                    m = tm.fmax(m, x)
                r = m if r is None else tm.fmin(r, m)
            return r
        n = len(xs)
        return nth(n // 2) if n % 2 else (nth(n // 2 - 1) + nth(n // 2)) / 2

    def n_mean(self, a, kw, st):
        r = self.rd(a[0], st)
        ax = self.axis_of(a, kw, st)
        s = self.n_sum(a, kw, st)
        n = ONE
        for i, d in enumerate(r.shape):
            if ax is None or i == ax % len(r.shape):
                n = n * lift(d)
        return self.binop('Div', s, n, st)

    def n_max(self, a, kw, st):
        return self.reduce(a[0], self.axis_of(a, kw, st), st, tm.fmax, self.supr, self.keepd(kw))
    n_amax = n_max

    def n_min(self, a, kw, st):
        return self.reduce(a[0], self.axis_of(a, kw, st), st, tm.fmin, lambda N, f: -self.supr(N, lambda k: -f(k)), self.keepd(kw))
    n_amin = n_min

    def _arg(self, a, kw, st, better):
        r = self.rd(a[0], st)
        if isinstance(r, Sy):
            return tm.app('arg' + better, self.ip.key(a[0], st))
        if self.axis_of(a, kw, st) is not None and r.ndim > 1:
            return self.opaque('numpy.arg' + better, a, kw, st)
        xs = r.ravel()
        best, bi = xs[0], lift(0)
        for i in range(1, len(xs)):
            c = tm.lt(xs[i], best) if better == 'min' else tm.lt(best, xs[i])
            bi = tm.ite(c, lift(i), bi)
            best = tm.ite(c, xs[i], best)
        return bi

    def n_argsort(self, a, kw, st):
        c = self.rd(a[0], st)
        if isinstance(c, np.ndarray) and c.ndim == 1 and len(a) == 1 and set(kw) <= {'kind'}:
            o = self.order_of(list(c), st)
            if o is not None:
                return self.ip.arr(np.array([lift(i) for i in o], dtype=object), st)
        v = self.opaque('numpy.argsort', a, kw, st)
        return Opq(v.key, 'arr')

    def n_sort(self, a, kw, st):
        c = self.rd(a[0], st)
        if isinstance(c, np.ndarray) and c.ndim == 1 and len(a) == 1 and set(kw) <= {'kind'}:
            o = self.order_of(list(c), st)
            if o is not None:
                return self.ip.arr(c[o], st)
        v = self.opaque('numpy.sort', a, kw, st)
        return Opq(v.key, 'arr')

    def n_argmin(self, a, kw, st):
        return self._arg(a, kw, st, 'min')

    def n_argmax(self, a, kw, st):
        return self._arg(a, kw, st, 'max')

    def n_any(self, a, kw, st):
        if isinstance(a[0], (B, bool)):
            return self.ip.truth(a[0], st)
        ax = self.axis_of(a, kw, st)
        if ax is not None:
            return self.reduce(a[0], ax, st, lambda x, y: self.ip.b2t(~tm.eq0(x) | ~tm.eq0(y)),
                               lambda N, f: (lambda kg: self.ip.b2t(self.ip.exists(kg[0], N, ~tm.eq0(kg[1]))))(self.bound(f)))
        return self._anyall([a[0] if not isinstance(a[0], T) else a[0]], st, True) if not isinstance(a[0], T) else self.ip.truth(a[0], st)

    def n_all(self, a, kw, st):
        if isinstance(a[0], (B, bool, T)):
            return self.ip.truth(a[0], st)
        ax = self.axis_of(a, kw, st)
        if ax is not None:
            return self.reduce(a[0], ax, st, lambda x, y: self.ip.b2t(~tm.eq0(x) & ~tm.eq0(y)),
                               lambda N, f: (lambda kg: self.ip.b2t(~self.ip.exists(kg[0], N, tm.eq0(kg[1]))))(self.bound(f)))
        return self._anyall([a[0]], st, False)

    def n_count_nonzero(self, a, kw, st):
        if isinstance(a[0], (Lst, tuple)):
            a = [self.n_array([a[0]], {}, st)] + list(a[1:])
        ax = self.axis_of(a, kw, st)
        if isinstance(a[0], (Arr, View, np.ndarray)):
            c = self.ip.cells(a[0], st) if not isinstance(a[0], np.ndarray) else a[0]
            one = lambda x: self.ip.b2t(x if isinstance(x, B) else ~tm.eq0(self.num(x, st)))
            z = np.empty(c.shape, dtype=object)
            for ix in np.ndindex(*c.shape):
                z[ix] = one(c[ix])
            if ax is None:
                return sum(z.ravel(), ZERO)
            return self.ip.arr(z.sum(axis=ax), st)
        return tm.app('countnz', self.ip.key(a[0], st))

    def n_where(self, a, kw, st):
        if len(a) == 1:
            return self.opaque('numpy.where', a, kw, st)
        return self.emap(lambda c, x, y: tm.ite(~tm.eq0(c), x, y), st, *a)

    def n_logical_and(self, a, kw, st):
        return self.tag_bool(self.emap(lambda x, y: self.ip.b2t(~tm.eq0(x) & ~tm.eq0(y)), st, a[0], a[1]))

    def n_logical_or(self, a, kw, st):
        return self.tag_bool(self.emap(lambda x, y: self.ip.b2t(~tm.eq0(x) | ~tm.eq0(y)), st, a[0], a[1]))

    def n_logical_not(self, a, kw, st):
        return self.tag_bool(self.emap(lambda x: self.ip.b2t(tm.eq0(x)), st, a[0]))

    def n_not_equal(self, a, kw, st):
        return self.compare('NotEq', a[0], a[1], st)

    def n_equal(self, a, kw, st):
        return self.compare('Eq', a[0], a[1], st)

    def n_array_equal(self, a, kw, st):
        x, y = self.rd(a[0], st), self.rd(a[1], st)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape:
                return FALSE
            r = TRUE
            for p, q in zip(x.ravel(), y.ravel()):
                r = r & tm.eqB(p, q)
            return r
        return tm.pred('arrayeq', self.ip.key(a[0], st), self.ip.key(a[1], st))

    def n_allclose(self, a, kw, st):
        return tm.pred('allclose', self.ip.key(a[0], st), self.ip.key(a[1], st))

    def n_isclose(self, a, kw, st):
        return tm.pred('isclose', self.ip.key(a[0], st), self.ip.key(a[1], st))

    def n_transpose(self, a, kw, st):
        v = a[0]
        if isinstance(v, Mat):
            return self.mat_T(v, st)
        ax = a[1] if len(a) > 1 else kw.get('axes')
        if len(a) > 2:
            ax = tuple(a[1:])
        axes = [cint(s[2]) for s in self.iterate(ax, st)] if ax is not None else None
        if isinstance(v, (Lst, tuple)):
            v = self.wrap(self.rd(v, st), st)
        if isinstance(v, Opq):
            return Opq(('T', v.key), v.ty)
        return self.transpose(v, axes, st)

    def n_trace(self, a, kw, st):
        r = self.rd(a[0], st)
        n = cint(r.shape[0])
        if n is None or len(r.shape) != 2:
            return self.opaque('numpy.trace', a, kw, st)
        s = ZERO
        for i in range(n):
            s = s + self.at(r, (lift(i), lift(i)))
        return s

    def n_diag(self, a, kw, st):
        r = self.rd(a[0], st)
        if isinstance(r, Sy):
            return self.opaque('numpy.diag', a, kw, st)
        if r.ndim == 1:
            n = len(r)
            out = np.empty((n, n), dtype=object)
            out.fill(ZERO)
            for i in range(n):
                out[i, i] = r[i]
            return self.ip.arr(out, st)
        return self.ip.arr(np.array([r[i, i] for i in range(min(r.shape))], dtype=object), st)
    n_diagonal = n_diag

    def n_concatenate(self, a, kw, st):
        ax = self.axis_of(a, kw, st)
        ax = 0 if ax is None else ax
        segs = self.iterate(a[0], st)
        if len(segs) == 1 and segs[0][0] == 's' and not (len(segs[0]) > 3 and segs[0][3]):
            # equally long pieces, one per round of a loop
            try:
                r = self.seq_iter(segs[0], st)
            except Unsupported:
                r = None
            if r is not None:
                m = cint(r.shape[1 + ax]) if ax == 0 and len(r.shape) > 1 else None
                if m is not None and m > 0:
                    def fn(idx, r=r, m=m):
                        dm = self.divmod_const(idx[0], m)
                        if dm is None:
                            q = tm.app('floor', idx[0] / lift(m))
                            return self.pick_list([self.at(r, (q, lift(j)) + tuple(idx[1:])) for j in range(m)], idx[0] - lift(m) * q)
                        return self.at(r, (dm[0], lift(dm[1])) + tuple(idx[1:]))
                    return self.wrap(Sy((lift(r.shape[0]) * lift(m),) + tuple(r.shape[2:]), fn), st)
        if not all(s[0] == 'c' and s[1] is TRUE for s in segs):
            return Opq(('concat', self.ip.key(a[0], st)), 'arr')
        vs = [s[2] for s in segs]
        if any(isinstance(v, Opq) for v in vs):
            return Opq(('concat',) + tuple(self.ip.key(v, st) for v in vs), 'arr')
        return self.concat([self.rd(v, st) for v in vs], ax, st)

    def concat(self, rs, ax, st):
        if all(isinstance(r, np.ndarray) for r in rs):
            return self.ip.arr(np.concatenate(rs, axis=ax), st)
        nd = len(rs[0].shape)
        ax = ax % nd
        tot = ZERO
        offs = []
        for r in rs:
            offs.append(tot)
            tot = tot + lift(r.shape[ax])
        sh = tuple(tot if i == ax else rs[0].shape[i] for i in range(nd))

        def fn(idx):
            i = idx[ax]
            c = None
            for r, o in reversed(list(zip(rs, offs))):
                v = self.at(r, idx[:ax] + (i - o,) + idx[ax + 1:])
                if c is None:
                    c = v
                else:
                    nxt = o + lift(r.shape[ax])
                    c = tm.ite(tm.lt(i, nxt), v, c)
            return c
        return self.wrap(Sy(sh, fn), st)

    def _stack(self, a, kw, st, mode):
        segs = self.iterate(a[0], st)
        if len(segs) == 1 and segs[0][0] == 's' and not (len(segs[0]) > 3 and segs[0][3]):
            try:
                r = self.seq_iter(segs[0], st)
            except Unsupported:
                r = None
            if r is not None:
                if mode == 'stack' and not (self.axis_of(a, kw, st) or 0) or mode in ('vstack', 'row_stack') and len(r.shape) == 2:
                    return self.wrap(r, st)
                if mode in ('vstack', 'row_stack') or mode == 'hstack' and len(r.shape) == 2:
                    return self.n_concatenate([a[0]], {}, st)
                if mode == 'column_stack' and len(r.shape) == 2 or mode == 'stack' and len(r.shape) == 2 and self.axis_of(a, kw, st) in (1, -1):
                    return self.wrap(Sy((r.shape[1], r.shape[0]), lambda idx: self.at(r, (idx[1], idx[0]))), st)
        if not all(s[0] == 'c' and s[1] is TRUE for s in segs):
            return Opq((mode, self.ip.key(a[0], st)), 'arr')
        rs = [self.rd(s[2], st) for s in segs]
        if mode in ('vstack', 'row_stack'):
            rs = [self.lead(r) if len(r.shape) == 1 else r for r in rs]
            return self.concat(rs, 0, st)
        if mode == 'column_stack':
            rs = [self.trail(r) if len(r.shape) == 1 else r for r in rs]
            return self.concat(rs, 1, st)
        if mode == 'hstack':
            rs = [self.lead(r) if len(r.shape) == 0 else r for r in rs]
            return self.concat(rs, 0 if len(rs[0].shape) == 1 else 1, st)
        if mode == 'stack':
            ax = self.axis_of(a, kw, st) or 0
            if ax == 0:
                return self.concat([self.lead(r) for r in rs], 0, st)
            if ax in (-1, len(rs[0].shape)):
                return self.concat([self.trail(r) for r in rs], len(rs[0].shape), st)
        raise Unsupported(mode)

    def lead(self, r):
        if isinstance(r, np.ndarray):
            return r[None]
        return Sy((1,) + r.shape, lambda idx: r.fn(idx[1:]))

    def trail(self, r):
        if isinstance(r, np.ndarray):
            return r[..., None]
        return Sy(r.shape + (1,), lambda idx: r.fn(idx[:-1]))

    def n_vstack(self, a, kw, st):
        return self._stack(a, kw, st, 'vstack')

    def n_row_stack(self, a, kw, st):
        return self._stack(a, kw, st, 'vstack')

    def n_hstack(self, a, kw, st):
        return self._stack(a, kw, st, 'hstack')

    def n_column_stack(self, a, kw, st):
        return self._stack(a, kw, st, 'column_stack')

    def n_stack(self, a, kw, st):
        return self._stack(a, kw, st, 'stack')

    def n_append(self, a, kw, st):
        ax = self.axis_of(a, kw, st, 2)
        rs = [self.rd(a[0], st), self.rd(a[1], st)]
        if ax is None:
            rs = [r.ravel() if isinstance(r, np.ndarray) else r for r in rs]
            ax = 0
        return self.concat(rs, ax, st)

    def n_reshape(self, a, kw, st):
        v = a[0]
        sh = a[1] if len(a) == 2 else (tuple(a[1:]) if len(a) > 2 else kw.get('newshape', kw.get('shape')))
        if isinstance(v, Opq):
            return Opq(('reshape', v.key, self.ip.key(sh, st)), 'arr')
        shape = list(self.shape_of(sh, st))
        if isinstance(v, (Lst, tuple)):
            v = self.wrap(self.rd(v, st), st)
        if isinstance(v, (Arr, View)):
            cs = [cint(d) for d in shape]
            if all(c is not None for c in cs):
                p = v.pos
                return type(v)(v.oid, p.reshape(cs))
            raise Unsupported('reshape')
        return self.reshape_sym(v, shape, st)

    def reshape_sym(self, v, shape, st):
        tot = ONE
        for d in v.shape:
            tot = tot * lift(d)
        neg = [i for i, d in enumerate(shape) if cint(d) == -1]
        if neg:
            known = ONE
            for i, d in enumerate(shape):
                if i not in neg:
                    known = known * lift(d)
            shape[neg[0]] = tot / known
        shape = [cint(d) if cint(d) is not None else d for d in shape]
        if len(shape) == len(v.shape) and all(self.deq(x, y) for x, y in zip(shape, v.shape)):
            return SArr(v.oid, v.shape, v.imap)
        if len(v.shape) == 1 and len(shape) == 2 and isinstance(shape[1], int):
            return SArr(v.oid, tuple(shape), ReIMap(shape[1], v.imap))
        if len(v.shape) == 2 and len(shape) == 1 and cint(v.shape[1]) is not None:
            return SArr(v.oid, tuple(shape), FlatIMap(cint(v.shape[1]), v.imap, self))
        if len(v.shape) == len(shape) - 1 and shape[-1] == 1:
            r = self.rd(v, st)
            return self.wrap(self.trail(r), st)
        if len(v.shape) == 2 and cint(v.shape[1]) == 1 and len(shape) == 1:
            return self.getitem(v, (FULL, ZERO), st)
        key = self.ip.key(v, st)
        return self.ip.sarr(lambda idx: tm.app('reshaped', key, tuple(shape), *idx), tuple(shape), st)

    def n_flatten(self, a, kw, st):
        v = a[0]
        if isinstance(v, (Arr, View)):
            return self.ip.arr(np.asarray(self.ip.cells(v, st)).ravel(), st)
        if isinstance(v, SArr):
            return self.n_copy([self.reshape_sym(v, [lift(-1)], st)], {}, st)
        return Opq(('flat', self.ip.key(v, st)), 'arr')

    def n_ravel(self, a, kw, st):
        v = a[0]
        if isinstance(v, (Arr, View)):
            return type(v)(v.oid, v.pos.ravel())
        if isinstance(v, SArr):
            return self.reshape_sym(v, [lift(-1)], st)
        return Opq(('flat', self.ip.key(v, st)), 'arr')

    def n_squeeze(self, a, kw, st):
        v = a[0]
        if isinstance(v, (Arr, View)):
            return type(v)(v.oid, v.pos.squeeze())
        return Opq(('squeeze', self.ip.key(v, st)), 'arr')

    def n_expand_dims(self, a, kw, st):
        ax = self.axis_of(a, kw, st)
        v = a[0]
        if isinstance(v, (Arr, View)):
            return type(v)(v.oid, np.expand_dims(v.pos, ax))
        raise Unsupported('expand_dims')

    def n_copyto(self, a, kw, st):
        o, v = a[0], self.rd(a[1], st)
        if isinstance(o, SArr):
            self.store_all(o, v, st)
        elif isinstance(o, (Arr, View)):
            self.ip.write(o, np.broadcast_to(v, o.shape), st)
        else:
            self.ip.event('setitem', st, (self.ip.key(o, st), 'all', a[1]))
        return None

    def n_repeat(self, a, kw, st):
        r = self.rd(a[0], st)
        n = cint(self.num(kw.get('repeats', a[1] if len(a) > 1 else None), st))
        ax = kw.get('axis', a[2] if len(a) > 2 else None)
        if n is None or isinstance(r, Sy):
            return self.opaque('numpy.repeat', a, kw, st)
        return self.wrap(np.repeat(np.asarray(r, dtype=object), n, axis=None if ax is None else cint(self.num(ax, st))), st)

    def n_tile(self, a, kw, st):
        r = self.rd(a[0], st)
        n = a[1] if len(a) > 1 else kw.get('reps')
        reps = [self.num(x, st) for x in (n if isinstance(n, tuple) else (n,))]
        n = tuple(cint(x) for x in reps)
        if len(r.shape) == 1 and len(reps) == 2 and n[1] == 1 and (n[0] is None or isinstance(r, Sy)):
            # rows of copies
            return self.wrap(Sy((reps[0], lift(r.shape[0])), lambda idx: self.at(r, (idx[1],))), st)
        if isinstance(r, Sy) or any(x is None for x in n):
            return self.opaque('numpy.tile', a, kw, st)
        return self.wrap(np.tile(np.asarray(r, dtype=object), n), st)

    def n_flip(self, a, kw, st):
        r = self.rd(a[0], st)
        ax = kw.get('axis', a[1] if len(a) > 1 else None)
        if isinstance(r, Sy):
            return self.opaque('numpy.flip', a, kw, st)
        return self.wrap(np.flip(r, axis=None if ax is None else cint(self.num(ax, st))), st)

    def n_roll(self, a, kw, st):
        r = self.rd(a[0], st)
        n = cint(self.num(a[1], st))
        ax = kw.get('axis', a[2] if len(a) > 2 else None)
        if isinstance(r, Sy) or n is None:
            return self.opaque('numpy.roll', a, kw, st)
        return self.wrap(np.roll(r, n, axis=None if ax is None else cint(self.num(ax, st))), st)

    def n_cumsum(self, a, kw, st):
        r = self.rd(a[0], st)
        if isinstance(r, Sy) or r.ndim != 1:
            return self.opaque('numpy.cumsum', a, kw, st)
        out, t = [], ZERO
        for x in r:
            t = t + x
            out.append(t)
        return self.ip.arr(np.array(out, dtype=object), st)

    def n_comb(self, a, kw, st):
        c = [cint(x) for x in a]
        if all(x is not None for x in c):
            import math
            return lift(math.comb(*c))
        return tm.app('comb', *[self.num(x, st) for x in a])

    def n_float64(self, a, kw, st):
        return self.num(a[0], st)
    n_float32 = n_float64

    def n_int32(self, a, kw, st):
        return self.x_builtins_int(a, kw, st)
    n_int64 = n_int32

    def n_finfo(self, a, kw, st):
        import fractions
        f32 = a and isinstance(a[0], Ext) and a[0].path.endswith('float32')
        i = np.finfo(np.float32 if f32 else np.float64)
        return NObj('finfo', {k: lift(fractions.Fraction(float(getattr(i, k)))) for k in ('eps', 'tiny', 'max', 'min', 'resolution')})

    def n_vectorize(self, a, kw, st):
        fn = a[0] if a else kw['pyfunc']

        def apply(ip, st2, args, kw2):
            if len(args) == 1 and not kw2 and isinstance(args[0], (Arr, View, np.ndarray, Lst, tuple)):
                X = self.n_array([args[0]], {}, st2) if isinstance(args[0], (Lst, tuple)) else args[0]
                if not isinstance(X, SArr):
                    c = ip.cells(X, st2) if not isinstance(X, np.ndarray) else X
                    out = np.empty(c.shape, dtype=object)
                    for ix in np.ndindex(*c.shape):
                        out[ix] = lift(self.num(ip.call(fn, [c[ix]], {}, st2), st2))
                    return ip.arr(out, st2)
            return ip.call(fn, args, kw2, st2)
        return Native(apply, 'vectorized')

    def x_numpy_linalg_norm(self, a, kw, st):
        r = self.rd(a[0], st) if not isinstance(a[0], Opq) else None
        if r is None:
            return tm.app('norm', a[0].key)
        ordv = kw.get('ord', a[1] if len(a) > 1 else None)
        ax = kw.get('axis', a[2] if len(a) > 2 else None)
        if ordv is not None:
            o = ordv
            if isinstance(o, T) and o is tm.sym('inf') and ax is None and len(r.shape) == 1:
                return self.reduce(self.emap(tm.absval, st, r), None, st, tm.fmax, self.supr)
            if not (cint(o) == 2 and (len(r.shape) == 1 or ax is not None)) and not isinstance(o, str):
                return tm.app('norm', self.ip.key(a[0], st), self.ip.key(o, st))
        sq = self.emap(lambda x: x * x, st, r)
        s = self.reduce(sq, cint(ax) if ax is not None else None, st, lambda x, y: x + y, self.bound_sum, self.keepd(kw))
        return self.emap(tm.sqrt, st, s)

    def det_cells(self, M):
        n = M.shape[0]
        if n == 1:
            return M[0, 0]
        s = ZERO
        for j in range(n):
            sub = np.delete(np.delete(M, 0, 0), j, 1)
            t = M[0, j] * self.det_cells(sub)
            s = s + t if j % 2 == 0 else s - t
        return s

    def inv_cells(self, M):
        n = M.shape[0]
        d = tm.inv(self.det_cells(M))
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sub = np.delete(np.delete(M, j, 0), i, 1)
                c = self.det_cells(sub) if n > 1 else ONE
                out[i, j] = (c if (i + j) % 2 == 0 else -c) * d
        return out

    def small(self, v, st):
        if isinstance(v, (Opq, Mat)):
            return None
        r = self.rd(v, st)
        if isinstance(r, np.ndarray) and r.ndim == 2 and r.shape[0] == r.shape[1] and r.shape[0] <= 4:
            return r
        return None

    def batched(self, v, st):
        """(n,3,3) symbolic"""
        if isinstance(v, SArr) and len(v.shape) == 3 and cint(v.shape[1]) is not None and cint(v.shape[1]) == cint(v.shape[2]):
            return self.rd(v, st)
        return None

    def stacked(self, v, st):
        """a known number of small square matrices"""
        if isinstance(v, (Opq, Mat, T, int, float)):
            return None
        r = self.rd(v, st)
        if isinstance(r, np.ndarray) and r.ndim >= 3 and r.shape[-1] == r.shape[-2] and r.shape[-1] <= 4:
            return r
        return None

    def x_numpy_linalg_det(self, a, kw, st):
        k = self.stacked(a[0], st)
        if k is not None:
            out = np.empty(k.shape[:-2], dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = self.det_cells(k[ix])
            return self.ip.arr(out, st)
        r = self.small(a[0], st)
        if r is not None:
            return self.det_cells(r)
        b = self.batched(a[0], st)
        if b is not None:
            n = cint(b.shape[1])

            def fn(idx):
                M = np.empty((n, n), dtype=object)
                for i in np.ndindex(n, n):
                    M[i] = b.fn((idx[0],) + tuple(lift(j) for j in i))
                return self.det_cells(M)
            return self.wrap(Sy((b.shape[0],), fn), st)
        return tm.app('det', self.ip.key(a[0], st))

    def x_numpy_linalg_inv(self, a, kw, st):
        k = self.stacked(a[0], st)
        if k is not None:
            out = np.empty(k.shape, dtype=object)
            for ix in np.ndindex(*k.shape[:-2]):
                out[ix] = self.inv_cells(k[ix])
            return self.ip.arr(out, st)
        r = self.small(a[0], st)
        if r is not None:
            return self.ip.arr(self.inv_cells(r), st)
        b = self.batched(a[0], st)
        if b is not None:
            n = cint(b.shape[1])

            def fn(idx):
                M = np.empty((n, n), dtype=object)
                for i in np.ndindex(n, n):
                    M[i] = b.fn((idx[0],) + tuple(lift(j) for j in i))
                I = self.inv_cells(M)
                return self.at(I, idx[1:])
            return self.wrap(Sy(b.shape, fn), st)
        x = self.cells_of(a[0], st)
        if x is not None and x.shape[0] == x.shape[1]:
            if all(x[i] is ZERO or x[i] == ZERO for i in np.ndindex(*x.shape) if i[0] != i[1]):
                out = x.copy()
                for i in range(len(x)):
                    out[i, i] = ONE / x[i, i]
                return self.dense(out, st)
        if isinstance(a[0], Mat):
            return Mat('inv', (a[0],), a[0].shape)
        return Opq(('inv', self.ip.key(a[0], st)), 'arr')
    x_scipy_sparse_linalg_inv = x_numpy_linalg_inv

    def x_numpy_linalg_solve(self, a, kw, st):
        r = self.small(a[0], st)
        if r is not None:
            if r.shape[0] <= 3:
                return self.wrap(self.mm(self.inv_cells(r), self.rd(a[1], st)), st)
            b = self.rd(a[1], st)
            b = b if isinstance(b, np.ndarray) else None
            if b is not None and b.shape == (r.shape[0],):
                n = r.shape[0]
                return self.ip.arr(np.array([tm.app('lsolve', lift(i), tuple(r.ravel()), tuple(b)) for i in range(n)], dtype=object), st)
        return self.opaque('numpy.linalg.solve', a, kw, st)

    def x_numpy_linalg_lstsq(self, a, kw, st):
        r = self.small(a[0], st)
        if r is None:
            return self.opaque('numpy.linalg.lstsq', a, kw, st)
        # a square system of full rank: the solution
        x = self.x_numpy_linalg_solve(a[:2], {}, st)
        return (x,) + tuple(Opq(('lstsq', i, self.ip.key(a[0], st))) for i in range(3))

    def x_numpy_cov(self, a, kw, st):
        x = self.rd(a[0], st)
        x = x if isinstance(x, np.ndarray) else None
        if x is None or len(a) > 1 or set(kw) - {'rowvar', 'bias', 'ddof'}:
            return self.opaque('numpy.cov', a, kw, st)
        if x.ndim == 1:
            x = x[None]
        elif self.ip.truth(kw.get('rowvar', True), st) is FALSE:
            x = x.T
        n = x.shape[1]
        dd = kw.get('ddof')
        if dd is None:
            dd = 0 if self.ip.truth(kw.get('bias', False), st) is TRUE else 1
        dd = cint(lift(dd) if isinstance(dd, int) else dd)
        c = x.copy()
        for i in range(len(x)):
            m = sum(x[i], ZERO) / n
            c[i] = [v - m for v in x[i]]
        out = np.empty((len(x), len(x)), dtype=object)
        for i, j in np.ndindex(*out.shape):
            out[i, j] = sum((u * v for u, v in zip(c[i], c[j])), ZERO) / (n - dd)
        return self.ip.arr(out, st) if len(x) > 1 else out[0, 0]

    def _eig(self, a, st, name):
        k = self.stacked(a[0], st)
        if k is not None:
            w = np.empty(k.shape[:-1], dtype=object)
            V = np.empty(k.shape, dtype=object)
            for ix in np.ndindex(*k.shape[:-2]):
                x, y = self._eig([self.ip.arr(k[ix], st)], st, name)
                w[ix], V[ix] = self.ip.cells(x, st), self.ip.cells(y, st)
            return (self.ip.arr(w, st), self.ip.arr(V, st))
        r = self.small(a[0], st)
        if r is None:
            return self.opaque('numpy.linalg.' + name, a, {}, st)
        key = tuple(r.ravel())
        n = r.shape[0]
        w = np.empty(n, dtype=object)
        V = np.empty((n, n), dtype=object)
        for i in range(n):
            w[i] = tm.app(name + 'val', i, *key)
            for j in range(n):
                V[i, j] = tm.app(name + 'vec', i, j, *key)
        return (self.ip.arr(w, st), self.ip.arr(V, st))

    def x_numpy_linalg_eig(self, a, kw, st):
        return self._eig(a, st, 'eig')

    def x_numpy_linalg_eigh(self, a, kw, st):
        return self._eig(a, st, 'eigh')

    def x_numpy_linalg_svd(self, a, kw, st):
        r = self.small(a[0], st)
        if r is None:
            return self.opaque('numpy.linalg.svd', a, kw, st)
        key = tuple(r.ravel())
        n = r.shape[0]
        U = np.empty((n, n), dtype=object)
        V = np.empty((n, n), dtype=object)
        s = np.empty(n, dtype=object)
        for i in range(n):
            s[i] = tm.app('svdval', i, *key)
            for j in range(n):
                U[i, j] = tm.app('svdu', i, j, *key)
                V[i, j] = tm.app('svdv', i, j, *key)
        return (self.ip.arr(U, st), self.ip.arr(s, st), self.ip.arr(V, st))

    # sparse
    def x_scipy_sparse_csr_matrix(self, a, kw, st):
        shp = kw.get('shape', a[1] if len(a) > 1 else None)
        shape = tuple(self.num(x, st) for x in self.unpack(shp, 2, st)) if shp is not None else None
        v = a[0]
        if isinstance(v, Mat):
            return v
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple):
            # snapshot of the triplets
            data, (row, col) = v
            snap = lambda x: self.n_copy([x], {}, st) if self.isarr(x) else self.list_get(x, FULL, st) if isinstance(x, Lst) else x
            d = self.dense_triplets(data, row, col, shape, st)
            if d is not None:
                return d
            return Mat('triplets', (snap(data), snap(row), snap(col)), shape)
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, T) for x in v):
            return Mat('zero', (), v)
        if self.isarr(v):
            return Mat('dense', (v,), tuple(lift(d) for d in v.shape))
        return Mat('opq', (Opq(('csr', self.ip.key(v, st))),), shape)
    def x_scipy_sparse_lil_matrix(self, a, kw, st):
        v = a[0]
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, T) for x in v):
            return Mat('dense', (self.call_ext('numpy.zeros', [v], {}, st),), v)
        return self.x_scipy_sparse_csr_matrix(a, kw, st)
    x_scipy_sparse_dok_matrix = x_scipy_sparse_lil_matrix
    x_scipy_sparse_csc_matrix = x_scipy_sparse_csr_matrix
    x_scipy_sparse_coo_matrix = x_scipy_sparse_csr_matrix
    x_scipy_sparse_bsr_matrix = x_scipy_sparse_csr_matrix

    def dense_triplets(self, data, row, col, shape, st):
        """a small matrix of known sparsity as an array of entries (duplicates add up)"""
        n = tuple(cint(x) for x in shape) if shape is not None else None
        if n is None or None in n or n[0] * n[1] > 8000:
            return None
        try:
            d, r, c = (self.rd(x, st) for x in (data, row, col))
        except Unsupported:
            return None
        if not all(isinstance(x, np.ndarray) and x.ndim == 1 for x in (d, r, c)):
            return None
        M = np.empty(n, dtype=object)
        M[...] = ZERO
        for k in range(len(d)):
            i, j = cint(r[k]), cint(c[k])
            if i is None or j is None:
                return None
            if not (0 <= i < n[0] and 0 <= j < n[1]):
                raise Unsupported('sparse entry (%d,%d) outside of the shape %s' % (i, j, n))
            M[i, j] = M[i, j] + d[k]
        return self.dense(M, st)

    def dense(self, M, st):
        return Mat('dense', (self.ip.arr(M, st),), tuple(lift(d) for d in M.shape))

    def cells_of(self, m, st):
        if isinstance(m, Mat) and m.kind == 'dense':
            r = self.rd(m.args[0], st)
            return r if isinstance(r, np.ndarray) else None
        return None

    def x_scipy_sparse_block_diag(self, a, kw, st):
        v = a[0]
        if isinstance(v, (Lst, tuple)):
            if isinstance(v, tuple):
                v = self.ip.lst(list(v), st)
            oid = self.ip.new_oid()
            st.heap[oid] = self.ip.content(v.oid, st)
            n = self.length(v, st) * lift(3)
            return Mat('bdiag', (Lst(oid),), (n, n))
        return Mat('opq', (Opq(('bdiag', self.ip.key(v, st))),), None)

    def x_scipy_sparse_identity(self, a, kw, st):
        n = self.num(a[0], st)
        return Mat('eye', (), (n, n))
    x_scipy_sparse_eye = x_scipy_sparse_identity

    def x_scipy_sparse_diags(self, a, kw, st):
        return Mat('opq', (Opq(('diags', self.ip.key(a[0], st))),), None)
