"""Gated value-graph construction (abstract interpretation of the repository's Python).

One abstract state per program point: branches are executed on copies and joined with
gated phi's, loops over collections of unknown size are summarised by one generic
iteration (induction variables, accumulators, flags and quantified stores are recognised
from the value graph of the body), calls are resolved and inlined.  No code of the
repository is executed.
"""
import ast
import builtins
import itertools
import numpy as np

from . import term as tm
from .term import T, B, TRUE, FALSE, ZERO, ONE, lift
from .values import *
from .load import AnalysisBroken

MAXCONC = 200
CALLDEPTH = 60


class Loop:
    """summary of one generic loop"""

    def __init__(self, key, k, n, loc, fn):
        self.key, self.k, self.n, self.loc, self.fn = key, k, n, loc, fn
        self.phis = {}      # location -> (phi T/B, init, step)
        self.cond = None
        self.brk = FALSE
        self.ret = FALSE
        self.guard = TRUE


class Frame:
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.returns = []
        self.loops = []
        self.ids = 0
        self.self_cls = None


BINDERS = {}


def binders(node, deep):
    """names a function (deep) or the top level of a module can bind; '*' after a star import"""
    key = (node, deep)
    if key in BINDERS:
        return BINDERS[key]
    out = set()

    def go(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
            elif isinstance(c, ast.arg):
                out.add(c.arg)
            elif isinstance(c, ast.alias):
                out.add('*' if c.name == '*' else (c.asname or c.name.split('.')[0]))
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                out.update(c.names)
            elif isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            elif isinstance(c, ast.MatchMapping) and c.rest:
                out.add(c.rest)
            if not deep and isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for g in ast.walk(c):
                    if isinstance(g, ast.Global):
                        out.update(g.names)
                continue
            go(c, False)
    go(node, True)
    BINDERS[key] = out
    return out


class Interp:
    def __init__(self, program, schema=None, models=None, opaque=None):
        self.breads = set()
        from . import npmodel
        self.np = npmodel.Model(self)
        self.prog = program
        self.schema = schema or {}
        self.models = models or {}      # qualified repo function -> python callable(interp, st, args, kw)
        self.opaque = set(opaque or ())  # qualified repo functions treated as uninterpreted
        self.const_heap = {}
        self.lazy_base = {}
        self.globals = {}
        self.classes = {}
        self.events = []
        self.loops = []
        self.loopctx = []
        self.frames = []
        self.unbound = set()
        self.noid = 0
        self.loc = None
        self.visited = set()       # (module, qualname) interpreted
        self.unmodelled = {}       # external name -> count
        self.ctor_cache = {}
        self.nstmts = 0
        self.record = True
        self.fresh = 0
        self.phname = {}
        self.quiet = 0
        self.names, self.named = {}, {}

    # -- bookkeeping --------------------------------------------------------
    maxrec = 4

    def new_oid(self):
        self.noid += 1
        return self.noid

    def event(self, kind, st, data):
        if self.quiet:
            return
        self.events.append(Event(kind, st.pc, tuple(self.loopctx), self.loc, data,
                                 self.frames[-1].fn if self.frames else None))

    def unk(self, why):
        """an unknown value (a fresh symbol): nothing may be concluded from it"""
        self.fresh += 1
        fn = self.frames[-1].fn if self.frames else ''
        return tm.app('unk', str(why), str(self.loc), self.fresh)

    # -- allocation ---------------------------------------------------------
    def arr(self, cells, st):
        cells = np.asarray(cells, dtype=object)
        oid = self.new_oid()
        flat = np.empty(cells.size, dtype=object)
        flat[:] = [lift(c) if not isinstance(c, (T, B)) else (c if isinstance(c, T) else self.b2t(c)) for c in cells.ravel()]
        st.heap[oid] = flat
        return Arr(oid, np.arange(cells.size).reshape(cells.shape))

    def sarr(self, fn, shape, st, bkey=None):
        oid = self.new_oid()
        st.heap[oid] = SContent(fn, (), bkey)
        return SArr(oid, shape)

    def lst(self, items, st, kind='list'):
        oid = self.new_oid()
        st.heap[oid] = LContent(None, tuple(Seg('e', TRUE, v) for v in items))
        return Lst(oid, kind)

    def obj(self, cls, st, fields=None):
        oid = self.new_oid()
        st.heap[oid] = dict(fields or {})
        return Obj(oid, cls)

    def b2t(self, b):
        if b is TRUE:
            return ONE
        if b is FALSE:
            return ZERO
        return tm.ite(b, ONE, ZERO)

    # -- heap ---------------------------------------------------------------
    def content(self, oid, st):
        c = st.heap.get(oid)
        if c is None:
            c = self.const_heap.get(oid)
            if c is None:
                c = self.lazy_base.get(oid)
            if c is None:
                raise Unsupported('dangling %r' % (oid,))
        return c

    def cells(self, v, st):
        if isinstance(v, Arr):
            return self.content(v.oid, st)[v.pos] if v.pos.shape != () else np.array(self.content(v.oid, st)[int(v.pos)], dtype=object)
        if isinstance(v, View):
            out = np.empty(v.pos.shape, dtype=object)
            c = self.content(v.oid, st)
            for i in np.ndindex(v.pos.shape):
                out[i] = self.sel_content(c, v.pos[i])
            return out
        raise Unsupported('cells of %r' % (v,))

    def sel(self, v, idx, st):
        """select from SArr"""
        idx = tuple(lift(i) for i in idx)
        if v.imap:
            idx = v.imap(idx)
        return self.sel_content(self.content(v.oid, st), idx)

    def sel_content(self, c, idx, upto=None):
        if isinstance(c, np.ndarray):
            raise Unsupported('select in concrete buffer')
        n = len(c.stores) if upto is None else upto
        for j in range(n - 1, -1, -1):
            s = c.stores[j]
            rest = [] if s.add else None
            m = self.match(s, idx, rest)
            if m is False:
                continue
            if m is None:
                return self.rd(c, j + 1, idx)
            env = m
            val = s.value(idx) if callable(s.value) else s.value
            val = tm.subst(val, env) if env else val
            g = tm.subst(s.guard, env) if env else s.guard
            g = g & self.in_range(s.quants, env)
            if g is FALSE:
                continue
            if s.add:
                val = val if g is TRUE else tm.ite(g, val, ZERO)
                for q, e in rest:
                    val = tm.mksum(q, tm.subst(lift(e), env) if env else lift(e), val)
                return val + self.sel_content(c, idx, j)
            if g is TRUE:
                return val
            return tm.ite(g, val, self.sel_content(c, idx, j))
        if self.loopctx:
            self.breads.add(id(c.base))
        return c.base(idx)

    def in_range(self, quants, env):
        g = TRUE
        for q, e in dict(quants).items():
            x = env.get(q)
            if x is None or (x.as_atom() is not None and self.is_int_atom(x.as_atom())):
                continue        # a generic index: in range by assumption
            if x == lift(e) - ONE:
                g = g & tm.le(ONE, lift(e))
                continue
            e = tm.subst(lift(e), env)
            g = g & tm.le(ZERO, x) & tm.lt(x, e)
        return g

    def rd(self, c, n, idx):
        """read through stores that may or may not hit: decided per interpretation"""
        if not hasattr(self, 'boxes'):
            self.boxes = {}
        if self.loopctx:
            self.breads.add(id(c.base))
        key = (id(c), n)
        if key not in self.boxes:
            self.boxes[key] = (c, tm.Box(c, n, len(idx)))
        b = self.boxes[key][1]
        return tm.app('rd', b, tuple(idx), tuple(lift(a) for a in b.free))

    def match(self, s, idx, rest=None):
        """False = no, None = maybe, dict = substitution for quantified indices; quantified indices that the place does not
        depend on go to rest (additive stores), otherwise the last iteration wins"""
        env = {}
        qs = dict(s.quants)
        for p, e in zip(s.pattern, idx):
            if p is None:
                continue
            p2 = tm.subst(p, env) if env else p
            free = [q for q in qs if q in p2.atoms() and q not in env]
            d = e - p2
            if not free:
                c = d.const()
                if c is None:
                    r = self.distinct(d)
                    if r:
                        return False
                    return None
                if c != 0:
                    return False
                continue
            if len(free) == 1:
                q = free[0]
                r = self.solve(p2, q, e)
                if r is False:
                    return False
                if r is None:
                    return None
                env[q] = r
                continue
            # two quantifiers: give up
            return None
        for q in qs:
            if q not in env:
                if rest is not None:
                    rest.append((q, qs[q]))
                    continue
                if q in s.guard.atoms():
                    return None
                # every iteration writes the same place: last one wins
                env[q] = qs[q] - ONE
        return env

    def distinct(self, d):
        # index difference that can be shown non-zero: c + multiple of integers never 0
        if len(d.m) >= 2:
            c0 = d.m.get((), 0)
            if c0 != 0 and all(isinstance(c, int) for c in d.m.values()):
                import math
                g = 0
                for k, c in d.m.items():
                    if k != ():
                        if not all(self.is_int_atom(a) and e > 0 for a, e in k):
                            return False
                        g = math.gcd(g, abs(c))
                if g > 1 and c0 % g != 0:
                    return True
        return False

    def is_int_atom(self, a):
        if a.op == 'sym':
            n = a.args[0]
            return isinstance(n, str) and (n.startswith('ι') or n.startswith('int:'))
        if a.op == 'fld':
            return str(a.args[1]).endswith('#idx') or str(a.args[1]).endswith('#int')
        return a.op in ('len', 'lastidx', 'idxof', 'count')

    def solve(self, p, q, e):
        """solve p(q) == e for integer q"""
        # p = a*q + b
        a = 0
        A = q
        b = ZERO
        for k, c in p.m.items():
            ats = [x for x, _ in k]
            if any(x is q or q in tm.atom_atoms(x) for x in ats):
                if len(k) == 1 and k[0][1] == 1:
                    if a != 0 and k[0][0] is not A:
                        return None
                    A = k[0][0]
                    a = a + c
                else:
                    return None
            else:
                b = b + tm.mk({k: c})
        if a == 0 or not isinstance(a, int):
            return None
        d = e - b
        jj = ZERO
        for k, c in d.m.items():
            if k == ():
                if c % a != 0:
                    # other terms all multiples of a and integral?
                    if all(isinstance(c2, int) and c2 % a == 0 and all(self.is_int_atom(x) for x, _ in k2)
                           for k2, c2 in d.m.items() if k2 != ()):
                        return False
                    return None
                jj = jj + lift(c // a)
            else:
                if not isinstance(c, int) or c % a != 0:
                    return None
                jj = jj + tm.mk({k: c // a})
        if A is q:
            return jj
        # p depends on q through an atom A(q): unify
        at = jj.as_atom()
        if at is not None and at.op == A.op and len(at.args) == len(A.args):
            r = None
            for x, y in zip(A.args, at.args):
                if x is y or x == y:
                    continue
                if isinstance(x, T) and isinstance(y, T) and q in x.atoms():
                    s = self.solve(x, q, y)
                    if s in (None, False):
                        return None
                    r = s
                else:
                    return None
            if r is None:
                return lift(q)
            return r
        return None

    def write(self, v, cellvals, st):
        """store cell values (object ndarray broadcast to v.shape)"""
        cv = np.asarray(cellvals, dtype=object)
        if cv.size == 1 and v.pos.shape == ():
            cv = cv.reshape(())
        try:
            cv = np.broadcast_to(cv, v.pos.shape)
        except ValueError:
            raise Unsupported('store of %s into %s' % (cv.shape, v.pos.shape))
        if isinstance(v, Arr):
            c = self.content(v.oid, st).copy()
            if v.pos.shape == ():
                c[int(v.pos)] = cv.item()
            else:
                c[v.pos.ravel()] = cv.ravel()
            st.heap[v.oid] = c
            self.event('arrwrite', st, (v.oid,))
        elif isinstance(v, View):
            c = self.content(v.oid, st)
            stores = list(c.stores)
            for i in np.ndindex(v.pos.shape):
                stores.append(Store((), TRUE, tuple(v.pos[i]), cv[i], self.loc))
            st.heap[v.oid] = SContent(c.base, stores, c.bkey)
            self.event('arrwrite', st, (v.oid,))
        else:
            raise Unsupported('write %r' % (v,))

    def write_all(self, v, fn, st, pattern=None):
        """whole (or axis-wise) store into a symbolic array: fn(view idx) -> T"""
        c = self.content(v.oid, st)
        if v.imap is None:
            st.heap[v.oid] = c.add(Store((), TRUE, tuple(None for _ in v.shape), fn, self.loc))
        else:
            pat, inv = v.imap.pattern
            st.heap[v.oid] = c.add(Store((), TRUE, pat, lambda idx: fn(inv(idx)), self.loc))
        self.event('arrwrite', st, (v.oid,))

    # -- keys ---------------------------------------------------------------
    def key(self, v, st, depth=0):
        if depth > 6:
            return ('...',)
        if isinstance(v, (T, B)):
            return v
        if v is None or isinstance(v, (str, bool, int)):
            return ('c', v)
        if isinstance(v, tuple):
            return ('tup',) + tuple(self.key(x, st, depth + 1) for x in v)
        if isinstance(v, (Arr, View)):
            c = self.cells(v, st)
            return ('arr', c.shape) + tuple(c.ravel())
        if isinstance(v, SArr):
            return self.skey(v, st)
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, Lst):
            c = self.content(v.oid, st)
            return ('lst', c.base.name if c.base else None) + tuple(
                (s.kind, s.guard, self.key(s.value, st, depth + 1), s.k, s.n) for s in c.segs) + tuple(
                (s[0], s[1], s[2], self.key(s[3], st, depth + 1)) for s in c.stores)
        if isinstance(v, Dct):
            c = self.content(v.oid, st)
            return ('dct', c.base.name if c.base else None) + tuple(
                (s.kind, s.guard, self.key(s.key, st, depth + 1), self.key(s.value, st, depth + 1), s.k, s.n) for s in c.segs)
        if isinstance(v, Obj):
            if v.lazy:
                return ('obj',) + tuple(v.lazy)
            if v.cls is not None:
                f = self.content(v.oid, st)
                return ('obj', v.cls.name) + tuple((n, self.key(x, st, depth + 2)) for n, x in sorted(f.items()))
            return ('obj', v.oid)
        if isinstance(v, Mat):
            if v.ident is None:
                v.ident = self.intern(('mat', v.kind) + tuple(self.key(a, st, 1) for a in v.args))
            return v.ident
        if isinstance(v, (Cls, Ext, Mod)):
            return ('n', repr(v))
        if isinstance(v, Fn):
            return ('fn', v.qual)
        if isinstance(v, Bound):
            return ('bound', v.fn.qual, self.key(v.obj, st, depth + 1))
        if isinstance(v, BoundExt):
            return ('bext', v.name, self.key(v.obj, st, depth + 1))
        if isinstance(v, Rng):
            return ('rng', self.key(v.a, st), self.key(v.b, st), self.key(v.s, st))
        if isinstance(v, Slc):
            return ('slc', self.key(v.a, st), self.key(v.b, st), self.key(v.s, st))
        if isinstance(v, Choice):
            return ('choice',) + tuple((g, self.key(x, st, depth + 1)) for g, x in v.alts)
        if isinstance(v, It):
            return ('it', len(v.segs))
        if v is UNBOUND:
            return ('unbound',)
        if isinstance(v, (NObj, Native)):
            return ('nobj', v.name)
        return ('?', type(v).__name__)

    def skey(self, v, st):
        c = self.content(v.oid, st)
        idx = tuple(tm.sym('ιx%d' % i) for i in range(len(v.shape)))
        idxs = v.imap(idx) if v.imap else idx
        if c.bkey is not None:
            kb = c.bkey
        else:
            kb = c.base(idxs)
        st_k = tuple((s.guard, s.quants, s.add, s.pattern, s.value(idxs) if callable(s.value) else s.value) for s in c.stores)
        return ('sarr', tuple(v.shape), kb, st_k, tuple(idxs))

    def intern(self, key):
        """short name of a closed structural key (the same key gets the same name)"""
        if self.loopctx:
            at = tm.deep_atoms(key)
            if any(l.k in at for l in self.loopctx):
                return key
        n = self.names.get(key)
        if n is None:
            n = ('K', key[0] if isinstance(key[0], str) else '', key[1] if len(key) > 1 and isinstance(key[1], str) else '', len(self.names))
            self.names[key] = n
            self.named[n] = key
        return n

    # -- joins --------------------------------------------------------------
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Arr, View)) and type(a) is type(b):
            return a.oid == b.oid and a.pos.shape == b.pos.shape and (a.pos is b.pos or bool(np.all(a.pos == b.pos)))
        if isinstance(a, SArr) and isinstance(b, SArr):
            return a.oid == b.oid and a.imap is b.imap and a.shape == b.shape
        if isinstance(a, (Lst, Dct, Obj)) and type(a) is type(b):
            return a.oid == b.oid
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.key == b.key
        if isinstance(a, (Ext, Mod)) and type(a) is type(b):
            return a.__class__ is b.__class__ and (getattr(a, 'path', None) == getattr(b, 'path', None)) and getattr(a, 'name', None) == getattr(b, 'name', None)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.node is b.node
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn.node is b.fn.node and self.same(a.obj, b.obj)
        if isinstance(a, BoundExt) and isinstance(b, BoundExt):
            return a.name == b.name and self.same(a.obj, b.obj)
        if isinstance(a, Choice) and isinstance(b, Choice):
            return len(a.alts) == len(b.alts) and all(g is h and self.same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
        if isinstance(a, Mat) and isinstance(b, Mat):
            return a.kind == b.kind and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, (Rng, Slc)) and type(a) is type(b):
            return self.same(a.a, b.a) and self.same(a.b, b.b) and self.same(a.s, b.s)
        return False

    def join(self, c, a, b, sa, sb, out):
        """value = a if c else b; `out` is the joined state (allocation)"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNBOUND:
            return b
        if b is UNBOUND:
            return a
        if self.same(a, b):
            return a
        if isinstance(a, B) and isinstance(b, B):
            return tm.bite(c, a, b)
        if isinstance(a, (T, B)) and isinstance(b, (T, B)):
            ta = a if isinstance(a, T) else self.b2t(a)
            tb = b if isinstance(b, T) else self.b2t(b)
            return tm.ite(c, ta, tb)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(c, x, y, sa, sb, out) for x, y in zip(a, b))
        if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)) and a.shape == b.shape:
            ca, cb = self.cells(a, sa), self.cells(b, sb)
            res = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                res[i] = tm.ite(c, ca[i], cb[i])
            return self.arr(res, out)
        if isinstance(a, SArr) and isinstance(b, SArr) and len(a.shape) == len(b.shape) and all(x is y or x == y for x, y in zip(a.shape, b.shape)):
            ca, cb = self.content(a.oid, sa), self.content(b.oid, sb)
            fa = (lambda idx: self.sel_content(ca, a.imap(idx) if a.imap else idx))
            fb = (lambda idx: self.sel_content(cb, b.imap(idx) if b.imap else idx))
            return self.sarr(lambda idx: tm.ite(c, fa(idx), fb(idx)), a.shape, out)
        for cc, x, y in ((c, a, b), (~c, b, a)):
            # an array without entries, where the other one has none either
            if isinstance(x, Arr) and isinstance(y, SArr) and len(x.shape) == len(y.shape) and 0 in x.shape and all(
                    tm.implies(cc, tm.eq0(lift(q))) if p == 0 else lift(p) == lift(q) for p, q in zip(x.shape, y.shape)):
                return y
        alts = []
        for cc, v in ((c, a), (~c, b)):
            if isinstance(v, Choice):
                for g, x in v.alts:
                    gg = g & cc
                    if gg is not FALSE:
                        alts.append((gg, x))
            else:
                alts.append((cc, v))
        merged = []
        for g, x in alts:
            for i, (h, y) in enumerate(merged):
                if self.same(x, y):
                    merged[i] = (h | g, y)
                    break
            else:
                merged.append((g, x))
        if len(merged) == 1:
            return merged[0][1]
        return Choice(merged)

    def merge(self, a, b):
        """join two states with disjoint path conditions"""
        if a is None:
            return b
        if b is None:
            return a
        pc = a.pc | b.pc
        c = tm.restrict(a.pc, pc)
        if c is TRUE:
            # a covers everything (should not happen with disjoint conditions)
            return a
        if c is FALSE:
            return b
        out = State({}, {}, pc)
        # heap first (so that values can be looked up)
        ha, hb = a.heap, b.heap
        oh = out.heap
        todo = []
        for oid, x in ha.items():
            y = hb.get(oid)
            if y is x:
                oh[oid] = x
            elif y is None:
                y = self.lazy_base.get(oid)
                if y is None or y is x:
                    if isinstance(oid, tuple) and oid[0] == 'el':
                        todo.append((oid, x, {}))
                        oh[oid] = x
                    else:
                        oh[oid] = x
                else:
                    todo.append((oid, x, y))
            else:
                todo.append((oid, x, y))
        for oid, y in hb.items():
            if oid not in ha:
                x = self.lazy_base.get(oid)
                if x is None or x is y:
                    if isinstance(oid, tuple) and oid[0] == 'el':
                        todo.append((oid, {}, y))
                    oh[oid] = y
                else:
                    todo.append((oid, x, y))
        for oid, x, y in todo:
            oh[oid] = self.join_content(c, oid, x, y, a, b, out)
        for n in a.env.keys() | b.env.keys():
            out.env[n] = self.join(c, a.env.get(n, UNBOUND), b.env.get(n, UNBOUND), a, b, out)
        return out

    def join_content(self, c, oid, x, y, sa, sb, out):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape:
            r = x.copy()
            for i in range(len(r)):
                if x[i] is not y[i]:
                    r[i] = tm.ite(c, x[i], y[i])
            return r
        if isinstance(x, SContent) and isinstance(y, SContent):
            n = 0
            while n < len(x.stores) and n < len(y.stores) and x.stores[n] is y.stores[n]:
                n += 1
            if x.base is y.base or (x.bkey is not None and x.bkey == y.bkey):
                st = list(x.stores[:n])
                for s in x.stores[n:]:
                    st.append(Store(s.quants, s.guard & c, s.pattern, s.value, s.loc, s.add))
                for s in y.stores[n:]:
                    st.append(Store(s.quants, s.guard & ~c, s.pattern, s.value, s.loc, s.add))
                return SContent(x.base, st, x.bkey)
            return SContent(lambda idx: tm.ite(c, self.sel_content(x, idx), self.sel_content(y, idx)), (), None)
        if isinstance(x, LContent) and isinstance(y, LContent):
            if x.base is y.base and len(x.segs) == len(y.segs) and len(x.stores) == len(y.stores) and all(
                    p is q for p, q in zip(x.stores, y.stores)) and all(
                    p is q or (p.kind == q.kind == 'e' and p.guard is TRUE and q.guard is TRUE and self.same(p.key, q.key))
                    for p, q in zip(x.segs, y.segs)):
                return LContent(x.base, [p if p is q else Seg('e', TRUE, self.join(c, p.value, q.value, sa, sb, out), key=p.key, loc=p.loc)
                                         for p, q in zip(x.segs, y.segs)], x.stores)
            n = 0
            while n < len(x.segs) and n < len(y.segs) and x.segs[n] is y.segs[n]:
                n += 1
            if x.base is y.base:
                segs = list(x.segs[:n])
                tx, ty = x.segs[n:], y.segs[n:]
                for s in tx:
                    segs.append(Seg(s.kind, s.guard & c, s.value, s.k, s.n, s.key, s.loc, s.grp))
                for s in ty:
                    segs.append(Seg(s.kind, s.guard & ~c, s.value, s.k, s.n, s.key, s.loc, s.grp))
                m = 0
                while m < len(x.stores) and m < len(y.stores) and x.stores[m] is y.stores[m]:
                    m += 1
                stores = list(x.stores[:m]) + [(q, g & c, i, v) for q, g, i, v in x.stores[m:]] + \
                    [(q, g & ~c, i, v) for q, g, i, v in y.stores[m:]]
                return LContent(x.base, segs, stores)
            segs = [Seg(s.kind, s.guard & c, s.value, s.k, s.n, s.key, s.loc, s.grp) for s in x.segs] + \
                   [Seg(s.kind, s.guard & ~c, s.value, s.k, s.n, s.key, s.loc, s.grp) for s in y.segs]
            return LContent(None, segs, x.stores)
        if isinstance(x, dict) and isinstance(y, dict):
            if isinstance(oid, tuple) and oid[0] == 'col':
                return self.join_cols(c, oid, x, y, sa, sb, out)
            r = {}
            for f in list(x) + [k for k in y if k not in x]:
                vx, vy = x.get(f, UNBOUND), y.get(f, UNBOUND)
                if vx is UNBOUND and isinstance(oid, tuple):
                    vx = self.lazy_field(oid, f, sa)
                if vy is UNBOUND and isinstance(oid, tuple):
                    vy = self.lazy_field(oid, f, sb)
                r[f] = self.join(c, vx, vy, sa, sb, out)
            return r
        raise Unsupported('join contents %s/%s' % (type(x).__name__, type(y).__name__))

    # -- symbolic objects ----------------------------------------------------
    def find_class(self, name):
        if name in self.classes:
            return self.classes[name]
        parts = name.rsplit('.', 1)
        if len(parts) == 2:
            m = self.prog.module(parts[0])
            for n in m.defs.get(parts[1], []):
                if isinstance(n, ast.ClassDef):
                    c = Cls(parts[1], n, m)
                    self.classes[name] = c
                    return c
        raise AnalysisBroken('class %s is gone' % name)

    def sym_obj(self, clsname, lazy, st):
        cls = self.find_class(clsname) if isinstance(clsname, str) else clsname
        oid = ('el',) + tuple(lazy)
        self.lazy_base.setdefault(oid, {})
        self.lazy_cls = getattr(self, 'lazy_cls', {})
        self.lazy_cls[oid] = cls
        return Obj(oid, cls, lazy)

    def ctor_defaults(self, cls):
        key = (cls.module.name, cls.name)
        if key not in self.ctor_cache:
            st = State({}, {}, TRUE)
            self.quiet += 1
            ev = self.events
            saved = (self.loopctx, self.frames)
            self.loopctx = []
            try:
                init = self.find_method(cls, '__init__')
                o = self.obj(cls, st)
                if init is not None:
                    args = init.node.args
                    nreq = len(args.args) - 1
                    a = [o] + [Opq(('ctorarg', cls.name, x.arg)) for x in args.args[1:]]
                    self.call_fn(init, a, {}, st)
                self.ctor_cache[key] = (dict(st.heap.get(o.oid, {})), st)
            except (Dead, Unsupported) as e:
                self.ctor_cache[key] = ({}, st)
            finally:
                self.quiet -= 1
                self.loopctx, self.frames = saved
        return self.ctor_cache[key]

    def field_spec(self, cls, field):
        for c in self.mro(cls):
            s = self.schema.get((c.name, field))
            if s is not None:
                return s
        d, st = self.ctor_defaults(cls)
        if field in d:
            v = d[field]
            if isinstance(v, T):
                return 'f'
            if isinstance(v, B):
                return 'b'
            if isinstance(v, str):
                return 's'
            if isinstance(v, Arr):
                return ('arr', v.shape)
            if isinstance(v, Obj) and v.cls is not None:
                return ('obj', v.cls)
            if isinstance(v, Lst):
                return ('coll', 'list', None, 'opq')
            if isinstance(v, Dct):
                return ('coll', 'dict', None, 'opq')
            return 'opq'
        return None

    def has_field(self, cls, f):
        return self.field_spec(cls, f) is not None

    def make_sym(self, spec, lazy, field, st):
        """symbolic value for `field` of the object denoted by lazy"""
        def nm(*extra):
            if lazy[0] == 'coll':
                return tm.app('fld', lazy[1], field, *extra, lazy[2])
            return tm.sym('%s.%s%s' % (lazy[1], field, ''.join('[%s]' % e for e in extra)))
        if spec in ('f', 'i'):
            if spec == 'i':
                if lazy[0] == 'coll':
                    return tm.app('fld', lazy[1], field + '#int', lazy[2])
                return tm.sym('int:%s.%s' % (lazy[1], field))
            return nm()
        if spec == 'b':
            if lazy[0] == 'coll':
                return tm.pred('bfld', lazy[1], field, lazy[2])
            return tm.pred('bsym', '%s.%s' % (lazy[1], field))
        if spec in ('s', 'opq'):
            if lazy[0] == 'coll':
                return Opq(('fld', lazy[1], field, lazy[2]), 'str' if spec == 's' else None)
            return Opq(('sym', '%s.%s' % (lazy[1], field)), 'str' if spec == 's' else None)
        if spec == 'none':
            return None
        if spec == 'selfidx':
            return lazy[2] if lazy[0] == 'coll' else nm()
        if spec == 'v3':
            spec = ('arr', (3,))
        if spec == 'q4':
            spec = ('arr', (4,))
        if spec == 'm33':
            spec = ('arr', (3, 3))
        if spec[0] == 'arr':
            shape = tuple(s for s in spec[1])
            if all(isinstance(s, int) for s in shape):
                oid = ('elf',) + tuple(lazy) + (field,)
                if oid not in self.lazy_base:
                    flat = np.empty(int(np.prod(shape)) if shape else 1, dtype=object)
                    for j, i in enumerate(np.ndindex(*shape)):
                        flat[j] = nm(*i)
                    self.lazy_base[oid] = flat
                return Arr(oid, np.arange(int(np.prod(shape))).reshape(shape))
            oid = ('elf',) + tuple(lazy) + (field,)
            if oid not in self.lazy_base:
                name = (lazy[1], field)
                extra = (lazy[2],) if lazy[0] == 'coll' else ()
                intv = len(spec) > 2 and spec[2] == 'int'
                tag = 'isel' if intv else 'sel'
                self.lazy_base[oid] = SContent(lambda idx: tm.app(tag, name, *extra, *idx), (), ('base', name, extra))
            shp = tuple(s if isinstance(s, int) else (s(lazy) if callable(s) else s) for s in shape)
            return SArr(oid, shp)
        if spec[0] == 'obj':
            sub = (lazy[0], '%s.%s' % (lazy[1], field)) + tuple(lazy[2:])
            return self.sym_obj(spec[1], sub, st)
        if spec[0] == 'member':
            # element of another collection
            if lazy[0] == 'coll':
                idx = tm.app('fld', lazy[1], field + '#idx', lazy[2])
            else:
                idx = tm.sym('int:%s.%s#idx' % (lazy[1], field))
            return self.sym_obj(spec[2], ('coll', spec[1], idx), st)
        if spec[0] == 'coll':
            name = spec[2] or ('%s.%s' % (lazy[1], field))
            if lazy[0] == 'coll':
                name = (name, lazy[2])
            oid = ('elc',) + tuple(lazy) + (field,)
            if oid not in self.lazy_base:
                self.lazy_base[oid] = LContent(Coll(name, spec[3]))
            return Dct(oid) if spec[1] == 'dict' else Lst(oid, spec[1])
        if spec[0] == 'choice':
            alts = []
            g = TRUE
            opts = spec[1]
            for i, s in enumerate(opts):
                if lazy[0] == 'coll':
                    p = tm.pred('alt', lazy[1], field, i, lazy[2])
                else:
                    p = tm.pred('alt', lazy[1], field, i)
                gg = g & p if i < len(opts) - 1 else g
                alts.append((gg, self.make_sym(s, lazy, field + '@%d' % i, st)))
                g = g & ~p
            return Choice(alts)
        raise Unsupported('spec %r' % (spec,))

    def lazy_field(self, oid, field, st):
        lazy = oid[1:]
        cls = self.lazy_cls.get(oid) if hasattr(self, 'lazy_cls') else None
        if cls is None:
            return UNBOUND
        if lazy[0] == 'coll':
            col = st.heap.get(('col', lazy[1]))
            if col and field in col:
                k, frozen = col[field]
                return self.thaw(frozen, {k: lazy[2]}, st)
        spec = self.field_spec(cls, field)
        if spec is None:
            return UNBOUND
        return self.make_sym(spec, lazy, field, st)

    def elem(self, coll, idx, st):
        """generic member `idx` of a symbolic collection"""
        spec = coll.spec
        return self.elem_spec(coll.name, spec, idx, st)

    def elem_spec(self, name, spec, idx, st):
        if isinstance(spec, tuple) and spec[0] == 'obj':
            return self.sym_obj(spec[1], ('coll', name, idx), st)
        if isinstance(spec, tuple) and spec[0] == 'member':
            return self.sym_obj(spec[2], ('coll', spec[1], tm.app('fld', name, '#idx', idx)), st)
        if isinstance(spec, tuple) and spec[0] == 'oneof':
            alts = []
            g = TRUE
            for i, s in enumerate(spec[1]):
                p = tm.pred('alt', name, i, idx)
                gg = g & p if i < len(spec[1]) - 1 else g
                alts.append((gg, self.elem_spec((name, i), s, idx, st)))
                g = g & ~p
            return Choice(alts)
        return self.make_sym(spec, ('coll', name, idx), 'item', st)

    # freeze/thaw: values with a bound index
    def freeze(self, v, st):
        if isinstance(v, (Arr, View)):
            return ('arr', self.cells(v, st))
        if isinstance(v, SArr):
            c = self.content(v.oid, st)
            return ('sarr', c, v.shape, v.imap)
        if isinstance(v, tuple):
            return ('tup', tuple(self.freeze(x, st) for x in v))
        if isinstance(v, Choice):
            return ('choice', tuple((g, self.freeze(x, st)) for g, x in v.alts))
        if isinstance(v, Obj) and not v.lazy and v.cls is not None:
            return ('obj', v.cls, {f: self.freeze(x, st) for f, x in self.content(v.oid, st).items()}, v.oid)
        if isinstance(v, Lst):
            c = self.content(v.oid, st)
            if c.base is None and not c.stores:
                return ('lst', v.kind, [(s.kind, s.guard, self.freeze(s.value, st), s.k, s.n, s.grp) for s in c.segs])
            return ('lstb', v.kind, c)
        return ('v', v)

    def thaw(self, f, env, st):
        k = f[0]
        sub = lambda x: tm.subst(x, env)
        if k == 'arr':
            cells = np.empty(f[1].shape, dtype=object)
            for i in np.ndindex(f[1].shape):
                cells[i] = sub(f[1][i])
            return self.arr(cells, st)
        if k == 'sarr':
            c, shape, imap = f[1], f[2], f[3]
            base = (lambda idx: sub(self.sel_content(c, imap(idx) if imap else idx)))
            return self.sarr(base, tuple(sub(s) if isinstance(s, T) else s for s in shape), st)
        if k == 'tup':
            return tuple(self.thaw(x, env, st) for x in f[1])
        if k == 'choice':
            alts = [(sub(g), self.thaw(x, env, st)) for g, x in f[1]]
            alts = [(g, x) for g, x in alts if g is not FALSE]
            if len(alts) == 1 and alts[0][0] is TRUE:
                return alts[0][1]
            return Choice(alts)
        if k == 'obj':
            o = self.obj(f[1], st)
            st.heap[o.oid] = {n: self.thaw(x, env, st) for n, x in f[2].items()}
            return o
        if k == 'lst':
            oid = self.new_oid()
            st.heap[oid] = LContent(None, tuple(
                Seg(kk, sub(g), self.thaw(v, env, st) if kk == 'e' else self.thaw(v, env, st), kx, sub(n) if isinstance(n, T) else n, grp=grp)
                for kk, g, v, kx, n, grp in f[2]))
            return Lst(oid, f[1])
        if k == 'lstb':
            oid = self.new_oid()
            st.heap[oid] = f[2]
            return Lst(oid, f[1])
        return self.subst_val(f[1], env, st)

    def subst_val(self, v, env, st):
        if isinstance(v, (T, B)):
            return tm.subst(v, env)
        if isinstance(v, Obj) and v.lazy and v.lazy[0] == 'coll' and isinstance(v.lazy[2], T):
            return self.sym_obj(v.cls, ('coll', self.subst_key(v.lazy[1], env), tm.subst(v.lazy[2], env)), st)
        if isinstance(v, Opq):
            return Opq(self.subst_key(v.key, env), v.ty)
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, env, st) for x in v)
        if isinstance(v, (Arr, View, SArr, Choice)):
            return self.thaw(self.freeze(v, st), env, st)
        return v

    def subst_key(self, k, env):
        return tm.subst(k, env) if isinstance(k, (tuple, T, B)) else k

    # -- classes ------------------------------------------------------------
    def mro(self, cls):
        out, todo, seen = [], [cls], set()
        while todo:
            c = todo.pop(0)
            if not isinstance(c, Cls) or c.name in seen:
                continue
            seen.add(c.name)
            out.append(c)
            for b in c.node.bases:
                v = self.static_expr(b, c.module)
                if isinstance(v, Cls):
                    todo.append(v)
        return out

    def static_expr(self, node, module):
        """resolve a dotted name at module level"""
        if isinstance(node, ast.Name):
            try:
                return self.global_name(module, node.id, State({}, {}, TRUE))
            except (Unsupported, Dead):
                return None
        if isinstance(node, ast.Attribute):
            b = self.static_expr(node.value, module)
            if b is None:
                return None
            try:
                return self.getattr(b, node.attr, State({}, {}, TRUE))
            except (Unsupported, Dead):
                return None
        return None

    def find_method(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None:
            i = [m.name for m in ms].index(after.name)
            ms = ms[i + 1:]
        for c in ms:
            for n in load_class_body(c.node):
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    kind = ''
                    for d in n.decorator_list:
                        dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
                        if dn in ('staticmethod', 'classmethod', 'property'):
                            kind = dn
                    return Fn(n, c.module, '%s.%s.%s' % (c.module.name, c.name, name), c, None, kind)
        return None

    # -- names ---------------------------------------------------------------
    def global_name(self, module, name, st):
        key = (module.name, name)
        if key in self.globals:
            v = self.globals[key]
            if v is None and key not in self.globals_done:
                raise Unsupported('cyclic global %s' % (key,))
            return v
        self.globals_done = getattr(self, 'globals_done', set())
        v = self._resolve_global(module, name, st)
        if v is UNBOUND:
            b = self.np.builtin(name)
            if b is not None:
                v = b
        if v is UNBOUND:
            if self.undefined(module, name):
                # NameError / AttributeError for certain: nothing binds the name
                self.event('raise', st, ('NameError',))
                self.unbound.add((self.loc, name))
                raise Dead()
            raise Unsupported('name %s in %s' % (name, module.name))
        self.globals_done.add(key)
        self.globals[key] = v
        return v

    def _resolve_global(self, module, name, st):
        from .load import walk_toplevel
        res = UNBOUND
        for n in walk_toplevel(module.tree.body):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                res = Fn(n, module, module.name + '.' + name)
                for d in n.decorator_list:
                    pass
            elif isinstance(n, ast.ClassDef) and n.name == name:
                q = module.name + '.' + name
                if q not in self.classes:
                    self.classes[q] = Cls(name, n, module)
                res = self.classes[q]
            elif isinstance(n, ast.Import):
                for a in n.names:
                    bind = a.asname or a.name.split('.')[0]
                    if bind == name:
                        res = self.import_module(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    base = self.abs_module(module, n)
                    if a.name == '*':
                        if base in self.prog.modules:
                            m2 = self.prog.modules[base]
                            if not name.startswith('_'):
                                try:
                                    v = self._module_attr(m2, name, st)
                                except Unsupported:
                                    v = UNBOUND
                                if v is not UNBOUND:
                                    res = v
                        elif base == 'math':
                            if name in ('sin', 'cos', 'sqrt', 'pi', 'atan2', 'acos', 'asin', 'tan', 'floor', 'ceil', 'fabs', 'exp', 'log'):
                                res = self.np.ext_attr(Ext('math'), name)
                    elif (a.asname or a.name) == name:
                        res = self.import_from(base, a.name, st)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Name) and t.id == name and n.value is not None:
                        s2 = State({}, {}, TRUE)
                        self.frames.append(Frame(None, module))
                        self.quiet += 1
                        saved = self.loopctx
                        self.loopctx = []
                        try:
                            res = self.eval(n.value, s2)
                        finally:
                            self.frames.pop()
                            self.quiet -= 1
                            self.loopctx = saved
                        self.const_heap.update(s2.heap)
        return res

    def _module_attr(self, m2, name, st):
        key = (m2.name, name)
        if key in self.globals:
            return self.globals[key]
        v = self._resolve_global(m2, name, st)
        if v is not UNBOUND:
            self.globals_done = getattr(self, 'globals_done', set())
            self.globals_done.add(key)
            self.globals[key] = v
        return v

    def undefined(self, module, name, local=True):
        """no statement of the program can bind this name where it is used"""
        if hasattr(builtins, name) or name.startswith('__'):
            return False
        fr = self.frames[-1] if self.frames else None
        if local:
            if fr is None or fr.fn is None or fr.mod is not module or fr.fn.closure is not None:
                return False
            if isinstance(fr.fn.node, ast.Lambda) or name in binders(fr.fn.node, True):
                return False
        b = binders(module.tree, False)
        return name not in b and '*' not in b and name + '*' not in b

    def abs_module(self, module, n):
        if n.level == 0:
            return n.module
        parts = module.name.split('.')
        is_pkg = module.path.endswith('__init__.py')
        up = n.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - up] if up else parts
        return '.'.join(base + ([n.module] if n.module else []))

    def import_module(self, name):
        if name in self.prog.modules or name in self.prog.packages:
            return Mod(name)
        return Ext(name)

    def import_from(self, base, name, st):
        full = (base or '') + '.' + name
        if base in self.prog.modules:
            v = self._module_attr(self.prog.modules[base], name, st)
            if v is not UNBOUND:
                return v
        if full in self.prog.modules or full in self.prog.packages:
            return Mod(full)
        if base in self.prog.modules:
            raise Unsupported('import %s' % full)
        return self.np.ext_attr(Ext(base), name) if base else Ext(full)

    def lookup(self, name, st):
        v = st.env.get(name, UNBOUND)
        if v is not UNBOUND:
            return v
        fr = self.frames[-1]
        if fr.fn is not None and fr.fn.closure is not None:
            c = fr.fn.closure
            if name in c:
                return c[name]
        return self.global_name(fr.mod, name, st)

    # -- calling --------------------------------------------------------------
    def call(self, f, args, kw, st):
        if isinstance(f, Choice):
            return self.mapchoice(f, lambda x, s: self.call(x, args, kw, s), st)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st)
        if isinstance(f, Native):
            return f.f(self, st, args, kw)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.obj] + list(args), kw, st)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw}, st)
        if isinstance(f, Cls):
            o = self.obj(f, st)
            self.event('new', st, (f, o))
            init = self.find_method(f, '__init__')
            if init is not None:
                self.call_fn(init, [o] + list(args), kw, st)
            else:
                self.np.ctor_noinit(f, o, args, kw, st)
            return o
        if isinstance(f, Ext):
            return self.np.call_ext(f.path, args, kw, st)
        if isinstance(f, BoundExt):
            return self.np.call_method(f.obj, f.name, args, kw, st)
        if isinstance(f, Opq):
            self.event('opqcall', st, (f.key, args))
            return Opq(('call', f.key) + tuple(self.key(a, st) for a in args))
        if isinstance(f, Obj):
            m = self.find_method(f.cls, '__call__')
            if m is not None:
                return self.call_fn(m, [f] + list(args), kw, st)
        raise Unsupported('call of %r' % (f,))

    def call_fn(self, fn, args, kw, st):
        q = fn.qual
        m = self.models.get(q)
        if m is not None:
            return m(self, st, args, kw)
        if q in self.opaque:
            self.event('opaque', st, (q, args))
            return Opq(('call', q) + tuple(self.key(a, st) for a in args))
        if len(self.frames) > CALLDEPTH or sum(1 for f in self.frames if f.fn is not None and f.fn.node is fn.node) >= self.maxrec:
            raise Unsupported('recursion deeper than the analysis follows: %s' % q)
        self.visited.add((fn.module.name, q))
        env = self.bind(fn, args, kw, st)
        caller_env = st.env
        fr = Frame(fn, fn.module)
        fr.self_cls = fn.cls
        saved_loc = self.loc
        self.frames.append(fr)
        try:
            st.env = env
            if isinstance(fn.node, ast.Lambda):
                r = self.eval(fn.node.body, st)
                return r
            work = State(env, st.heap, st.pc)
            self.event('enter', st, (q, args))
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn.node)):
                return self.np.generator(fn, work, st)
            end = self.block(fn.node.body, work)
            outs = list(fr.returns)
            if end is not None:
                outs.append((end, None))
            if not outs:
                raise Dead()
            s, v = outs[0]
            for s2, v2 in outs[1:]:
                pc = s.pc | s2.pc
                c = tm.restrict(s.pc, pc)
                ms = self.merge(s, s2)
                v = self.join(c, v, v2, s, s2, ms)
                s = ms
            st.heap = s.heap
            st.pc = s.pc
            return v
        finally:
            self.frames.pop()
            st.env = caller_env
            self.loc = saved_loc

    def bind(self, fn, args, kw, st):
        a = fn.node.args
        env = {}
        if fn.closure is not None and isinstance(fn.node, ast.Lambda):
            pass
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names) and not a.vararg:
            self.type_error('too many arguments for %s' % fn.qual, st)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kw:
                env[n] = kw.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if n in kw:
                env[n] = kw.pop(n)
            elif d is not None:
                defaults[n] = d
        for n, d in defaults.items():
            if n not in env:
                if isinstance(d, ast.Constant):
                    env[n] = self.const(d.value)
                else:
                    s2 = State({}, {}, TRUE)
                    self.frames.append(Frame(None, fn.module))
                    self.quiet += 1
                    saved = self.loopctx
                    self.loopctx = []
                    dkey = ('default', fn.qual, n)
                    try:
                        if dkey not in self.globals:
                            self.globals[dkey] = self.eval(d, s2)
                            self.const_heap.update(s2.heap)
                        env[n] = self.globals[dkey]
                    finally:
                        self.frames.pop()
                        self.quiet -= 1
                        self.loopctx = saved
        if a.kwarg:
            oid = self.new_oid()
            st.heap[oid] = LContent(None, tuple(Seg('e', TRUE, v, key=k) for k, v in kw.items()))
            env[a.kwarg.arg] = Dct(oid)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                self.type_error('missing argument %s of %s' % (n, fn.qual), st)
        if kw and not a.kwarg:
            self.type_error('unexpected argument %s of %s' % (sorted(kw)[0], fn.qual), st)
        return env

    def type_error(self, what, st):
        # a call made by a rule itself may simply be out of date
        if not self.frames:
            raise Unsupported(what)
        self.event('raise', st, ('TypeError',))
        raise Dead()

    def mapchoice(self, ch, f, st):
        outs = []
        for g, v in ch.alts:
            pc = st.pc & g
            if pc is FALSE:
                continue
            s2 = st.fork(pc)
            try:
                outs.append((s2, f(v, s2)))
            except Dead:
                continue
        if not outs:
            raise Dead()
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            pc = s.pc | s2.pc
            c = tm.restrict(s.pc, pc)
            ms = self.merge(s, s2)
            v = self.join(c, v, v2, s, s2, ms)
            s = ms
        st.become(s)
        return v

    # -- statements -----------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        self.nstmts += 1
        fr = self.frames[-1]
        self.loc = (fr.mod.rel, getattr(n, 'lineno', 0), fr.fn.qual if fr.fn else '')
        try:
            return getattr(self, 's_' + type(n).__name__)(n, st)
        except Dead:
            return None
        except AttributeError as e:
            if "'s_" in str(e) or 's_' + type(n).__name__ in str(e):
                raise Unsupported('statement %s' % type(n).__name__)
            raise

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(n.value, st)
        return st

    def s_Pass(self, n, st):
        return st

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = self.import_module(a.name if a.asname else a.name.split('.')[0])
        return st

    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = self.import_from(self.abs_module(self.frames[-1].mod, n), a.name, st)
        return st

    def s_Global(self, n, st):
        return st
    s_Nonlocal = s_Global

    def s_Assert(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        if not self.quiet:
            e = Event('raise', st.pc & ~c, tuple(self.loopctx), self.loc, ('assert',), self.frames[-1].fn)
            self.events.append(e)
        st.pc = st.pc & c
        if st.pc is FALSE:
            return None
        return st

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else None
        self.frames[-1].returns.append((st, v))
        return None

    def s_Raise(self, n, st):
        name = None
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        self.event('raise', st, (name,))
        return None

    def s_Break(self, n, st):
        self.frames[-1].loops[-1]['breaks'].append(st)
        return None

    def s_Continue(self, n, st):
        self.frames[-1].loops[-1]['continues'].append(st)
        return None

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        st.env[n.name] = Fn(n, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + '.' + n.name, fr.self_cls, st.env)
        return st

    def s_ClassDef(self, n, st):
        fr = self.frames[-1]
        st.env[n.name] = Cls(n.name, n, fr.mod)
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                self.event('delete', st, (ast.dump(t)[:80],))
                if isinstance(t, ast.Subscript):
                    o = self.eval(t.value, st)
                    k = self.eval(t.slice, st)
                    if isinstance(o, (Dct, Lst)):
                        c = self.content(o.oid, st)
                        segs = [s for s in c.segs if not (s.kind == 'e' and isinstance(k, str) and s.key == k)]
                        st.heap[o.oid] = LContent(c.base, segs, c.stores)
        return st

    def s_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        """the handler runs exactly where the body cannot complete (raise, missing key, failed
        assertion, ...); calls that are not modelled may fail for reasons of their own"""
        before = st.fork()
        fr = self.frames[-1]
        nret, nev = len(fr.returns), len(self.events)
        lp = fr.loops[-1] if fr.loops else {'breaks': [], 'continues': []}
        nb, nc = len(lp['breaks']), len(lp['continues'])
        unm = sum(self.unmodelled.values())
        loc = self.loc
        s = self.block(n.body, st)
        exits = ([s] if s is not None else []) + [x for x, _ in fr.returns[nret:]] + lp['breaks'][nb:] + lp['continues'][nc:]
        ok = FALSE
        for x in exits:
            ok = ok | x.pc
        bad = before.pc & ~ok
        if s is not None:
            s = self.block(n.orelse, s)
        if n.handlers and sum(self.unmodelled.values()) > unm and exits:
            exc = tm.pred('exc', str(loc))
            bad = bad | before.pc & exc
            for x in exits:
                if x.pc is not FALSE:
                    x.pc = x.pc & ~exc
        if n.handlers and bad is not FALSE:
            kinds = {e.data[0] for e in self.events[nev:] if e.kind == 'raise' and e.data and isinstance(e.data[0], str)}
            hs = [h for h in n.handlers if self.catches(h, kinds)]
            if hs:
                for x in exits:
                    for o, c in before.heap.items():
                        if x.heap.get(o) is not c:
                            raise Unsupported('a try body that changes state before it fails')
                h = before.fork(bad)
                if hs[0].name:
                    h.env[hs[0].name] = Opq(('exception', str(loc)))
                e = self.block(hs[0].body, h)
                s = e if s is None else self.merge(e, s) if e is not None else s
        if n.finalbody and s is not None:
            s = self.block(n.finalbody, s)
        return s

    def catches(self, h, kinds):
        if h.type is None:
            return True
        names = {x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '?') for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
        if names & {'Exception', 'BaseException'} or not kinds:
            return True
        sup = {'KeyError': {'LookupError'}, 'IndexError': {'LookupError'}, 'assert': {'AssertionError'}}
        hit = {k for k in kinds if k in names or sup.get(k, set()) & names}
        if hit and hit != kinds:
            raise Unsupported('several exceptions in one try')
        return bool(hit)

    def s_If(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        t = st.pc & c
        f = st.pc & ~c
        if f is FALSE:
            return self.block(n.body, st)
        if t is FALSE:
            return self.block(n.orelse, st)
        s1 = st.fork(t)
        s2 = st.fork(f)
        self.narrow(n.test, s1, True)
        self.narrow(n.test, s2, False)
        r1 = self.block(n.body, s1)
        r2 = self.block(n.orelse, s2) if n.orelse else s2
        return self.merge(r1, r2)

    def narrow(self, test, st, pos):
        """drop Choice alternatives excluded by the path condition"""
        for n in ast.walk(test):
            if isinstance(n, ast.Name):
                v = st.env.get(n.id)
                if isinstance(v, Choice):
                    alts = [(g, x) for g, x in v.alts if (g & st.pc) is not FALSE]
                    if len(alts) == 1:
                        st.env[n.id] = alts[0][1]
                    elif len(alts) < len(v.alts):
                        st.env[n.id] = Choice(alts)

    def s_Match(self, n, st):
        raise Unsupported('match statement')

    # assignment ----------------------------------------------------------------
    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)
        return st

    def s_AugAssign(self, n, st):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            v = self.eval(n.value, st)
            r = self.np.inplace(op, cur, v, st)
            st.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(o, t.attr, st)
            v = self.eval(n.value, st)
            r = self.np.inplace(op, cur, v, st)
            self.setattr(o, t.attr, r, st, aug=True)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            cur = self.np.getitem(o, k, st)
            v = self.eval(n.value, st)
            r = self.np.inplace(op, cur, v, st)
            self.np.setitem(o, k, r, st)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.np.unpack(v, None, st)
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, st)
                self.assign(t.elts[i].value, self.lst(items[i:len(items) - after], st), st)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, st)
                return
            items = self.np.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.np.setitem(o, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def setattr(self, o, name, v, st, aug=False):
        if isinstance(o, Choice):
            self.mapchoice(o, lambda x, s: self.setattr(x, name, v, s, aug), st)
            return
        if isinstance(o, Obj):
            c = dict(self.content(o.oid, st))
            old = c.get(name, UNBOUND)
            if old is UNBOUND and o.lazy:
                old = self.lazy_field(o.oid, name, st)
            c[name] = v
            st.heap[o.oid] = c
            self.event('setattr', st, (o, name, old, v))
            return
        if isinstance(o, Opq):
            self.event('setattr', st, (o, name, UNBOUND, v))
            st.heap[('opqf', o.key, name)] = {'v': v}
            return
        if isinstance(o, (SArr, Arr, View)) and name == 'shape':
            raise Unsupported('shape assignment')
        if isinstance(o, Fn):
            return
        if o is None:
            raise Dead()
        raise Unsupported('setattr on %r' % (o,))

    def getattr(self, o, name, st):
        if isinstance(o, Choice):
            return self.mapchoice(o, lambda x, s: self.getattr(x, name, s), st)
        if isinstance(o, Obj):
            c = self.content(o.oid, st)
            if name in c:
                return c[name]
            if o.lazy:
                v = self.lazy_field(o.oid, name, st)
                if v is not UNBOUND:
                    c = dict(c)
                    c[name] = v
                    st.heap[o.oid] = c
                    return v
            if o.cls is not None:
                f = self.find_method(o.cls, name)
                if f is not None:
                    if f.kind == 'staticmethod':
                        return f
                    if f.kind == 'property':
                        return self.call_fn(f, [o], {}, st)
                    return Bound(o.cls if f.kind == 'classmethod' else o, f)
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return Opq(('dict', self.key(o, st)))
                for c2 in self.mro(o.cls):
                    for b in c2.node.body:
                        if isinstance(b, (ast.Assign, ast.AnnAssign)):
                            tg = b.targets if isinstance(b, ast.Assign) else [b.target]
                            if any(isinstance(t, ast.Name) and t.id == name for t in tg) and b.value is not None:
                                s2 = State({}, {}, TRUE)
                                self.frames.append(Frame(None, c2.module))
                                try:
                                    v = self.eval(b.value, s2)
                                finally:
                                    self.frames.pop()
                                self.const_heap.update(s2.heap)
                                return v
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, NObj):
            if name not in o.attrs:
                raise Unsupported('attribute %s of %s' % (name, o.name))
            return o.attrs[name]
        if isinstance(o, Mod):
            m = self.prog.modules.get(o.name)
            if m is not None:
                v = self._module_attr(m, name, st)
                if v is not UNBOUND:
                    return v
            full = o.name + '.' + name
            if full in self.prog.modules or full in self.prog.packages:
                return Mod(full)
            if m is not None and self.frames and self.undefined(m, name, local=False):
                self.event('raise', st, ('AttributeError',))
                self.unbound.add((self.loc, full))
                raise Dead()
            raise Unsupported('module attribute %s' % full)
        if isinstance(o, Ext):
            v = self.np.ext_attr(o, name)
            return v
        if isinstance(o, Cls):
            f = self.find_method(o, name)
            if f is not None:
                return Bound(o, f) if f.kind == 'classmethod' else f
            if name == '__name__':
                return o.name
            for c2 in self.mro(o):
                for b in c2.node.body:
                    if isinstance(b, (ast.Assign, ast.AnnAssign)):
                        tg = b.targets if isinstance(b, ast.Assign) else [b.target]
                        if any(isinstance(t, ast.Name) and t.id == name for t in tg) and b.value is not None:
                            s2 = State({}, {}, TRUE)
                            self.frames.append(Frame(None, c2.module))
                            try:
                                v = self.eval(b.value, s2)
                            finally:
                                self.frames.pop()
                            self.const_heap.update(s2.heap)
                            return v
                    if isinstance(b, ast.ClassDef) and b.name == name:
                        return Cls(name, b, c2.module)
            raise Unsupported('class attribute %s.%s' % (o.name, name))
        if isinstance(o, Opq):
            f = st.heap.get(('opqf', o.key, name))
            if f is not None:
                return f['v']
            return Opq(('attr', o.key, name))
        if o is None:
            raise Dead()
        return self.np.value_attr(o, name, st)

    # -- loops ------------------------------------------------------------------
    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        try:
            segs = self.np.iterate(it, st)
        except Unsupported:
            raise
        fr = self.frames[-1]
        ctl = {'breaks': [], 'continues': []}
        fr.loops.append(ctl)
        try:
            cur = st
            for seg in segs:
                if cur is None:
                    break
                if seg[0] == 'c':
                    g, v = seg[1], seg[2]
                    gpc = cur.pc & g
                    if gpc is FALSE:
                        continue
                    skip = None
                    if (cur.pc & ~g) is not FALSE:
                        skip = cur.fork(cur.pc & ~g)
                        cur = cur.fork(gpc)
                    cur = self.one_iter(n, v, cur, ctl)
                    if skip is not None:
                        cur = self.merge(cur, skip)
                else:
                    cur = self.generic_loop(n, cur, seg[1],
                                            lambda k, s, seg=seg: self.assign(n.target, seg[2](k, s), s),
                                            n.body, guard=seg[3] if len(seg) > 3 else None)
            if cur is not None and n.orelse:
                cur = self.block(n.orelse, cur)
            for b in ctl['breaks']:
                cur = self.merge(cur, b)
            return cur
        finally:
            fr.loops.pop()

    def one_iter(self, n, v, cur, ctl):
        ctl['continues'] = []
        try:
            self.assign(n.target, v, cur)
        except Dead:
            return None
        e = self.block(n.body, cur)
        for c in ctl['continues']:
            e = self.merge(e, c)
        ctl['continues'] = []
        return e

    def s_While(self, n, st):
        fr = self.frames[-1]
        ctl = {'breaks': [], 'continues': []}
        fr.loops.append(ctl)
        try:
            # constant-trip unrolling while the condition is decided
            cur = st
            for _ in range(MAXCONC):
                if cur is None:
                    break
                probe = cur.fork()
                self.quiet += 1
                try:
                    c = self.truth(self.eval(n.test, probe), probe)
                finally:
                    self.quiet -= 1
                if (cur.pc & ~c) is FALSE and not isinstance(n.test, ast.Constant):
                    ctl['continues'] = []
                    e = self.block(n.body, cur)
                    for x in ctl['continues']:
                        e = self.merge(e, x)
                    ctl['continues'] = []
                    cur = e
                    continue
                if (cur.pc & c) is FALSE:
                    break
                cur = self.generic_loop(n, cur, None, None, n.body, test=n.test)
                break
            if cur is not None and n.orelse:
                cur = self.block(n.orelse, cur)
            for b in ctl['breaks']:
                cur = self.merge(cur, b)
            return cur
        finally:
            fr.loops.pop()

    def loop_name(self, n):
        fr = self.frames[-1]
        q = fr.fn.qual if fr.fn else fr.mod.name
        if fr.fn is not None:
            loops = [x for x in ast.walk(fr.fn.node) if isinstance(x, (ast.For, ast.While, ast.comprehension))]
            try:
                i = loops.index(n)
            except ValueError:
                i = -1
        else:
            i = 0
        return '%s#%d' % (q, i)

    def generic_loop(self, node, st, N, bindfn, body, test=None, guard=None, pyBody=None):
        """summarise a loop by one generic iteration.  Returns the state after the loop."""
        fr = self.frames[-1]
        ctl = fr.loops[-1]
        depth = len(self.loopctx)
        k = tm.atom('sym', 'ι%d' % depth)
        kT = lift(k)
        name = self.loop_name(node)
        is_while = test is not None
        trip = N if N is not None else tm.app('trip', name, tuple(str(l.key) for l in self.loopctx))
        mark_ev, mark_loops = len(self.events), len(self.loops)
        outer_breaks = ctl['breaks']
        outer_returns = list(fr.returns)
        carried = {}         # arrays an iteration may read after an earlier one wrote -> (name, contents before the loop, places written)
        locs = {}            # location -> resolution ('phi'|'ind'|'inv'|'acc'...)
        resolved = {}        # location -> value to use at loop header (T/B)
        phis = {}            # location -> phi symbol
        loc0 = self.loc
        is_cond_true = False
        for attempt in range(7):
            del self.events[mark_ev:]
            del self.loops[mark_loops:]
            fr.returns = []
            ctl['breaks'] = []
            ctl['continues'] = []
            L = Loop(name, k, trip, loc0, fr.fn)
            self.loopctx.append(L)
            self.loc = loc0
            try:
                h = st.fork()
                self.install(h, phis, resolved)
                for oid, (nm, shw, pats) in carried.items():
                    h.heap[oid] = self.carried_content(nm, shw, pats, k)
                hdr = h.fork()
                L.guard = st.pc
                exit_state = None
                if bindfn is not None:
                    try:
                        bindfn(kT, h)
                    except Dead:
                        h = None
                if h is not None and guard is not None:
                    g = guard(kT)
                    skip = h.fork(h.pc & ~g) if (h.pc & ~g) is not FALSE else None
                    h.pc = h.pc & g
                    if h.pc is FALSE:
                        h = None
                else:
                    skip = None
                if h is not None and is_while and not is_cond_true:
                    c = self.truth(self.eval(test, h), h)
                    L.cond = c
                    if not (isinstance(test, ast.Constant)):
                        # assume the body is entered
                        h.pc = h.pc & c
                        if h.pc is FALSE:
                            h = None
                L.entry = h.fork() if h is not None else None
                if pyBody is not None:
                    end = pyBody(kT, h) if h is not None else None
                else:
                    end = self.block(body, h) if h is not None else None
                for c2 in ctl['continues']:
                    end = self.merge(end, c2)
                if skip is not None:
                    end = self.merge(end, skip)
                brks = ctl['breaks']
                rets = fr.returns
            finally:
                self.loopctx.pop()
                fr.returns = list(outer_returns)
                ctl['breaks'] = outer_breaks
                ctl['continues'] = []
            full = end
            for b in brks:
                full = self.merge(full, b)
            if full is None:
                # the body never completes normally (returns / raises)
                full_mods = []
            else:
                full_mods = self.modified(hdr, full)
            new = [l for l in full_mods if l not in phis and l not in resolved]
            changed = False
            for oid, c in (full.heap.items() if full is not None else ()):
                h0 = hdr.heap.get(oid, self.lazy_base.get(oid))
                if h0 is c or not isinstance(c, SContent) or not isinstance(h0, SContent) or isinstance(oid, tuple) and self.is_generic(oid):
                    continue
                if self.carry(oid, h0, c, k, name, carried):
                    changed = True
            for l in new:
                ph = self.make_phi(l, name, hdr, full, phis)
                if ph is not None:
                    phis[l] = ph
                    changed = True
            if changed:
                continue
            # all modified locations have phi's: classify
            phis0 = dict(phis)
            for l in list(phis):
                init, step = self.loc_value(l, st), self.loc_value(l, full) if full is not None else None
                if step is None:
                    continue
                r = self.classify(l, phis[l], init, step, phis0, k, kT, trip, bool(brks), st, full)
                if r is not None and r[0] in ('inv', 'ind'):
                    resolved[l] = r[1]
                    del phis[l]
                    changed = True
            if not changed and is_while and not is_cond_true and L.cond is not None and not brks:
                nn = self.while_trip(L.cond, kT, phis, hdr)
                if nn is not None:
                    is_cond_true = True
                    trip = nn
                    changed = True
            if not changed:
                break
        else:
            L.incomplete = True
        # build the state after the loop
        self.loops.append(L)
        L.end = end
        if full is None:
            full = hdr
        lastsub = {k: trip - ONE}
        out = State(dict(st.env), dict(st.heap), st.pc)
        for ph_l, ph in phis.items():
            init, step = self.loc_value(ph_l, st), self.loc_value(ph_l, full)
            nxt = self.loc_value(ph_l, end) if end is not None else None
            L.phis[ph_l] = (ph, init, step if nxt is None or nxt is UNBOUND else nxt)
        # environment
        for nme, v in full.env.items():
            hv = hdr.env.get(nme, UNBOUND)
            l = ('env', nme)
            if l in resolved or l in phis or self.any_sub(l, phis, resolved):
                continue
            if hv is not UNBOUND and self.same(hv, v):
                if nme in out.env:
                    continue
            out.env[nme] = self.last_value(v, lastsub, full, out, st.env.get(nme, UNBOUND))
        # heap: objects created inside the loop stay reachable from quantified stores
        for oid, c in full.heap.items():
            h0 = hdr.heap.get(oid)
            if h0 is c:
                continue
            if h0 is None:
                h0 = self.lazy_base.get(oid)
            if h0 is None and oid not in st.heap:
                if isinstance(oid, tuple) and oid[0] == 'el':
                    self.close_elem(oid, {}, c, k, trip, st, full, out)
                    continue
                if isinstance(oid, tuple) and oid[0] in ('elf', 'elc'):
                    continue
                out.heap[oid] = c
                continue
            if isinstance(c, SContent):
                base = h0
                if oid in carried:
                    base, c = self.settle(oid, c, carried[oid])
                out.heap[oid] = self.quantify_stores(base, c, k, trip, full)
            elif isinstance(c, LContent) and simple_pair(h0, c):
                continue
            elif isinstance(c, LContent):
                base = st.heap.get(oid) or self.content(oid, st)
                out.heap[oid] = self.quantify_list(h0, c, k, trip, full, base, out)
            elif isinstance(oid, tuple) and oid[0] == 'el':
                self.close_elem(oid, h0, c, k, trip, st, full, out)
        exists = None
        # resolve scalar locations
        for l in list(resolved) + list(phis):
            init = self.loc_value(l, st)
            if l in resolved:
                v = resolved[l]
                if brks and isinstance(v, T) and k in v.atoms():
                    v = tm.app('mu', name, self.phname.get((name, l), l_name(l)))
                elif isinstance(v, (T, B)):
                    v = tm.subst(v, {k: trip})
                self.set_loc(l, v, out)
            else:
                step = self.loc_value(l, full)
                r = self.classify(l, phis[l], init, step, phis, k, kT, trip, bool(brks), st, full)
                if r is None:
                    v = self.mu_value(l, name, init, step, out)
                else:
                    v = r[2]
                    if isinstance(v, Arr) and v.oid not in out.heap:
                        out.heap[v.oid] = self.content(v.oid, st)
                self.set_loc(l, v, out)
        # returns inside the loop
        g_all = FALSE
        for s2, v in rets:
            g = tm.restrict(s2.pc, hdr.pc)
            L.ret = L.ret | g
            ex = self.exists(k, trip, g)
            first = {k: tm.app('first', k, trip, g)}
            s3 = State(dict(s2.env), dict(s2.heap), st.pc & ex & ~g_all)
            v3 = self.subst_val(v, first, s3) if not isinstance(v, (Lst, Dct)) else v
            g_all = g_all | ex
            if s3.pc is not FALSE:
                fr.returns.append((s3, v3))
        if g_all is not FALSE:
            out.pc = out.pc & ~g_all
            if out.pc is FALSE:
                return None
        for b in brks:
            L.brk = L.brk | tm.restrict(b.pc, hdr.pc)
        if is_while and isinstance(test, ast.Constant) and not brks:
            return None
        return out

    def exists(self, k, n, g):
        if g is TRUE:
            return ~tm.eq0(n)
        if g is FALSE:
            return FALSE
        if k not in g.atoms():
            return g & ~tm.eq0(n)
        return tm.pred('exists', k, n, g)

    def any_sub(self, l, phis, resolved):
        # a location refined into cells
        return any(m[0] == l[0] + 'cell' and m[1] == l[1] for m in itertools.chain(phis, resolved))

    def last_value(self, v, lastsub, full, out, old):
        try:
            if isinstance(v, (Lst, Dct)):
                return v
            if isinstance(v, Obj) and not v.lazy:
                return v
            tmp = State(out.env, out.heap, out.pc)
            if isinstance(v, (Arr, View, SArr)):
                f = self.freeze(v, full)
                return self.thaw(f, lastsub, out)
            return self.subst_val(v, lastsub, out)
        except Unsupported:
            return v

    # locations: ('env',name) ('obj',oid,field) ('arr',oid,cell)
    def modified(self, h, e):
        out = []
        for nme, v in h.env.items():
            w = e.env.get(nme, UNBOUND)
            if w is UNBOUND or self.same(v, w):
                continue
            out.append(('env', nme))
        for oid, c in e.heap.items():
            h0 = h.heap.get(oid)
            if h0 is c:
                continue
            if h0 is None:
                h0 = self.const_heap.get(oid)
            if h0 is None:
                h0 = self.lazy_base.get(oid)
            if h0 is None:
                continue
            if isinstance(c, np.ndarray) and isinstance(h0, np.ndarray):
                if isinstance(oid, tuple) and oid[0] == 'elf' and self.is_generic(oid):
                    continue
                for i in range(len(c)):
                    if c[i] is not h0[i]:
                        out.append(('arr', oid, i))
            elif isinstance(c, LContent) and simple_pair(h0, c):
                for i, (p, q) in enumerate(zip(h0.segs, c.segs)):
                    if p is not q and not self.same(p.value, q.value):
                        out.append(('lst', oid, i))
            elif isinstance(c, dict) and isinstance(oid, tuple) and oid[0] == 'el' and self.is_generic(oid):
                continue
            elif isinstance(c, dict) and not (isinstance(oid, tuple) and oid[0] in ('col',)):
                for f, v in c.items():
                    hv = h0.get(f, UNBOUND)
                    if hv is UNBOUND and isinstance(oid, tuple):
                        hv = self.lazy_field(oid, f, h)
                    if hv is UNBOUND:
                        continue
                    if not self.same(hv, v):
                        out.append(('obj', oid, f))
        return out

    def is_generic(self, oid):
        """object identified by the index of the loop being summarised"""
        k = tm.atom('sym', 'ι%d' % len(self.loopctx))
        return any(isinstance(x, T) and k in x.atoms() for x in oid) or any(
            isinstance(x, tuple) and any(isinstance(y, T) and k in y.atoms() for y in x) for x in oid)

    def loc_value(self, l, st):
        if st is None:
            return None
        if l[0] == 'env':
            return st.env.get(l[1], UNBOUND)
        if l[0] == 'arr':
            return self.content(l[1], st)[l[2]]
        c = self.content(l[1], st)
        if l[0] == 'lst':
            return c.segs[l[2]].value
        v = c.get(l[2], UNBOUND)
        if v is UNBOUND and isinstance(l[1], tuple):
            v = self.lazy_field(l[1], l[2], st)
        return v

    def set_loc(self, l, v, st):
        if l[0] == 'env':
            st.env[l[1]] = v
        elif l[0] == 'arr':
            c = self.content(l[1], st).copy()
            c[l[2]] = v if isinstance(v, T) else self.b2t(v)
            st.heap[l[1]] = c
        elif l[0] == 'lst':
            c = self.content(l[1], st)
            segs = list(c.segs)
            segs[l[2]] = Seg('e', TRUE, v, key=segs[l[2]].key, loc=segs[l[2]].loc)
            st.heap[l[1]] = LContent(c.base, segs, c.stores)
        else:
            c = dict(self.content(l[1], st))
            c[l[2]] = v
            st.heap[l[1]] = c

    def make_phi(self, l, name, hdr, full, phis=()):
        v = self.loc_value(l, hdr)
        w = self.loc_value(l, full)
        # buffers are numbered in the order in which the loop modifies them
        b = []
        for m in list(phis) + [l]:
            if m[0] != 'env' and not isinstance(m[1], tuple) and m[1] not in b:
                b.append(m[1])
        nm = 'φ:%s:%s:%d' % (name, l_name(l, b), len(self.loopctx))
        self.phname[name, l] = l_name(l, b)
        if isinstance(v, B) and isinstance(w, B):
            return tm.pred('phi', nm)
        if isinstance(v, (T, B)) and isinstance(w, (T, B)):
            return tm.sym(nm)
        if isinstance(v, (Arr, View)) and isinstance(w, (Arr, View)) and v.shape == w.shape:
            return ('arrphi', nm, v.shape)
        if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and all(isinstance(x, T) for x in v + w):
            return ('tupphi', nm, len(v))
        if isinstance(v, SArr) and isinstance(w, SArr) and len(v.shape) == len(w.shape):
            return ('sarrphi', nm, v.shape)
        return ('opqphi', nm)

    def install(self, h, phis, resolved):
        for l, v in itertools.chain(resolved.items(), phis.items()):
            if isinstance(v, tuple) and v and v[0] in ('arrphi', 'sarrphi', 'opqphi', 'tupphi'):
                if v[0] == 'tupphi':
                    val = tuple(tm.sym('%s.%d' % (v[1], i)) for i in range(v[2]))
                elif v[0] == 'arrphi':
                    cells = np.empty(v[2], dtype=object)
                    for i in np.ndindex(v[2]):
                        cells[i] = tm.sym('%s%s' % (v[1], list(i)))
                    val = self.arr(cells, h)
                elif v[0] == 'sarrphi':
                    nm = v[1]
                    val = self.sarr(lambda idx, nm=nm: tm.app('sel', nm, *idx), v[2], h, ('base', nm))
                else:
                    val = Opq(('phi', v[1]))
                self.set_loc(l, val, h)
            else:
                self.set_loc(l, v, h)

    def phi_atoms(self, phis):
        s = set()
        names = set()
        for v in phis.values():
            if isinstance(v, tuple):
                names.add(v[1])
                if v[0] == 'arrphi':
                    for i in np.ndindex(v[2]):
                        s.add(tm.atom('sym', '%s%s' % (v[1], list(i))))
                if v[0] == 'tupphi':
                    for i in range(v[2]):
                        s.add(tm.atom('sym', '%s.%d' % (v[1], i)))
            elif isinstance(v, T):
                s.add(v.as_atom())
            elif isinstance(v, B):
                s.add(v.v)
        return s, names

    def classify(self, l, ph, init, step, phis, k, kT, N, has_break, st, full):
        """-> (kind, header value, value after the loop) or None"""
        pa, names = self.phi_atoms(phis)

        def clean(t):
            return not (t.atoms() & pa) and not any(a.op == 'sel' and a.args and a.args[0] in names for a in t.atoms())
        if isinstance(ph, tuple):
            if ph[0] == 'arrphi' and isinstance(init, (Arr, View)) and isinstance(step, (Arr, View)):
                ci, cs = self.cells(init, st), self.cells(step, full)
                out = np.empty(ci.shape, dtype=object)
                for i in np.ndindex(ci.shape):
                    p = tm.sym('%s%s' % (ph[1], list(i)))
                    d = cs[i] - p
                    if d is ZERO:
                        out[i] = ci[i]
                    elif has_break:
                        return None
                    elif clean(d):
                        out[i] = ci[i] + tm.mksum(k, N, d)
                    elif clean(cs[i]):
                        out[i] = self.last_iter(cs[i], ci[i], k, N)
                    else:
                        return None
                tmp = out
                return ('acc', None, self.arr(tmp, st))
            return None
        if isinstance(ph, B):
            if not isinstance(step, B):
                return None
            if step is ph:
                return ('inv', init, init)
            # flag: set to a constant under g
            v = ph.v
            t1, t0 = tm.cofactor(step, v, True), tm.cofactor(step, v, False)
            if (t1.atoms() & pa) or (t0.atoms() & pa):
                return None
            if t1 is TRUE:
                ex = self.exists(k, N, t0)
                return ('flag', None, init | ex if isinstance(init, B) else None)
            if t0 is FALSE:
                ex = self.exists(k, N, ~t1)
                return ('flag', None, init & ~ex if isinstance(init, B) else None)
            return None
        if not isinstance(ph, T):
            return None
        if isinstance(step, B):
            step = self.b2t(step)
        if isinstance(init, B):
            init = self.b2t(init)
        if not isinstance(init, T) or not isinstance(step, T):
            return None
        if step is ph:
            return ('inv', init, init)
        d = step - ph
        if clean(d):
            if k not in d.atoms():
                if has_break:
                    return ('ind', init + d * kT, tm.app('mu', 'x', ph.as_atom().args[0]))
                return ('ind', init + d * kT, init + d * N)
            if has_break:
                return None
            return ('acc', None, init + tm.mksum(k, N, d))
        if clean(step):
            return ('last', None, self.last_iter(step, init, k, N)) if not has_break else None
        if has_break:
            return None
        at = step.as_atom()
        if at is not None and at.op == 'max':
            rest = [x for x in at.args if x is not ph]
            if len(rest) < len(at.args) and all(clean(x) for x in rest):
                g = rest[0]
                for x in rest[1:]:
                    g = tm.fmax(g, x)
                return ('max', None, tm.fmax(init, tm.app('supr', k, N, g)))
        n = (-step).as_atom()
        if n is not None and n.op == 'max':
            rest = [x for x in n.args if x is not -ph]
            if len(rest) < len(n.args) and all(clean(x) for x in rest):
                g = rest[0]
                for x in rest[1:]:
                    g = tm.fmax(g, x)
                return ('min', None, tm.fmin(init, -tm.app('supr', k, N, g)))
        if at is not None and at.op == 'ite':
            c, a, b = at.args
            if b is ph and clean(a) and k not in a.atoms() and not (c.atoms() & pa):
                return ('flag', None, tm.ite(self.exists(k, N, c), a, init))
            if a is ph and clean(b) and k not in b.atoms() and not (c.atoms() & pa):
                return ('flag', None, tm.ite(self.exists(k, N, ~c), b, init))
        return None

    def last_iter(self, step, init, k, N):
        """value after a loop that overwrites a location in every iteration"""
        return tm.ite(tm.eq0(N), init, tm.subst(step, {k: N - ONE}))

    def mu_value(self, l, name, init, step, st):
        nm = self.phname.get((name, l), l_name(l))
        if isinstance(init, B) and isinstance(step, B):
            return tm.pred('mu', name, nm)
        if isinstance(init, (T, B)):
            return tm.app('mu', name, nm)
        if isinstance(init, (Arr, View)):
            cells = np.empty(init.shape, dtype=object)
            for i in np.ndindex(init.shape):
                cells[i] = tm.app('mu', name, nm, *i)
            return self.arr(cells, st)
        if isinstance(init, SArr):
            return self.sarr(lambda idx: tm.app('sel', ('mu', name, nm), *idx), init.shape, st, ('base', 'mu', name, nm))
        if isinstance(init, tuple) and isinstance(step, tuple) and len(init) == len(step) and all(isinstance(x, T) for x in init):
            return tuple(tm.app('mu', name, nm, i) for i in range(len(init)))
        return Opq(('mu', name, nm))

    def while_trip(self, cond, kT, phis, hdr):
        pa, _ = self.phi_atoms(phis)
        if cond.v is None or cond.hi.v is not None or cond.lo.v is not None or cond.v.op != 'lt0':
            return None
        p = cond.v.args[0]
        k = kT.as_atom()
        neg = cond.hi is FALSE
        if p.atoms() & pa or k not in p.atoms():
            return None
        a = p.m.get(((k, 1),), 0)
        rest = p - lift(a) * kT
        if k in rest.atoms():
            return None
        # integer induction: a*k + rest < 0  (or >= 0 when negated)
        if not neg and a > 0:
            n = -rest / lift(a)
            return n
        if neg and a < 0:
            # a*k + rest >= 0  <=> k <= rest/-a
            return rest / lift(-a) + ONE
        return None

    def quantify_stores(self, base, c, k, N, full):
        n = 0
        while n < len(base.stores) and n < len(c.stores) and base.stores[n] is c.stores[n]:
            n += 1
        if base.base is not c.base and not (base.bkey is not None and base.bkey == c.bkey):
            return SContent(lambda idx: self.unk('array rebuilt in loop'), (), None)
        out = list(c.stores[:n])
        for s in c.stores[n:]:
            pat = s.pattern
            out.append(Store(((k, N),) + tuple(s.quants), s.guard, pat, s.value, s.loc, s.add))
        return SContent(base.base, out, base.bkey)

    # arrays carried from one iteration to the next
    def new_stores(self, h0, c):
        n = 0
        while n < len(h0.stores) and n < len(c.stores) and h0.stores[n] is c.stores[n]:
            n += 1
        return c.stores[n:]

    def carry(self, oid, h0, c, k, name, carried):
        """does an iteration read what earlier iterations wrote?  (registers the array; True when another pass is needed)"""
        new = self.new_stores(h0, c)
        if not new:
            return False
        pats = [(tuple(s.quants), s.pattern) for s in new]
        if oid in carried:
            nm, before, old = carried[oid]
            more = [p for p in pats if p not in old]
            if more and len(old) < 200:
                carried[oid] = (nm, before, old + more)
                return True
            return False
        if h0.base is not c.base:
            return False
        for s in new:
            if callable(s.value):
                s.value(tuple(tm.sym('ιx%d' % i) for i in range(len(s.pattern))))
        if id(h0.base) not in self.breads and not any(s.add for s in new):
            return False
        nm = 'φ:%s:%s:%d' % (name, 'arr%d' % len(carried) if not isinstance(oid, tuple) else '.'.join(map(str, oid)), len(self.loopctx) + 1)
        carried[oid] = (nm, h0, pats)
        return True

    def carried_content(self, nm, before, pats, k):
        def base(idx):
            if all(self.own_place(qs, pat, idx, k) for qs, pat in pats):
                return self.sel_content(before, idx)
            return tm.app('sel', nm, *idx)
        return SContent(base, (), ('base', nm))

    def own_place(self, quants, pat, idx, k):
        """no other iteration writes this place"""
        kT, kk = lift(k), tm.sym('ι′')
        ka = kk.as_atom()
        qs = [q for q, _ in quants]
        ext = {q: lift(e).const() for q, e in quants}
        for p, e in zip(pat, idx):
            if p is None:
                continue
            if k not in p.atoms():
                if not any(q in p.atoms() for q in qs):
                    d = (e - p).const()
                    if d is not None and d != 0 or self.distinct(e - p):
                        return True
                continue
            if e is p:
                # its own place: a k + b + q with 0 <= q < |a|
                a = p.m.get(((k, 1),))
                rest = p - lift(a) * kT if a is not None else None
                if rest is not None and k not in rest.atoms():
                    inner = [q for q in qs if q in rest.atoms()]
                    if not inner:
                        return True
                    if len(inner) == 1 and rest.m.get(((inner[0], 1),)) == 1 and inner[0] not in (rest - lift(inner[0])).atoms() \
                            and ext[inner[0]] is not None and ext[inner[0]] <= abs(a):
                        return True
                continue
            p2 = tm.subst(p, {k: kk})
            if any(q in p2.atoms() for q in qs) or any(ka in tm.atom_atoms(x) and x is not ka for x in p2.atoms()):
                continue
            r = self.solve(p2, ka, e)
            if r is False or r is not None and r is kT:
                return True
        return False

    def mentions(self, x, nm, seen=None):
        seen = set() if seen is None else seen
        for a in tm.deep_atoms(x):
            if a in seen:
                continue
            seen.add(a)
            if a.op == 'sel' and a.args and a.args[0] == nm:
                return True
            if a.op == 'rd':
                b = a.args[0]
                if any(self.mentions(y, nm, seen) for y in [b.base] + [z for qs, g, pat, v, add in b.stores for z in (g, v)]):
                    return True
        return False

    def settle(self, oid, c, info):
        """the stores of one iteration in terms of the contents before the loop: overwritten, or accumulated"""
        nm, before, pats = info
        out = []
        for j, s in enumerate(c.stores):
            hole = tuple(tm.sym('ιx%d' % i) if p is None else p for i, p in enumerate(s.pattern))
            v = s.value(hole) if callable(s.value) else s.value
            if not self.mentions(s.guard, nm) and not any(self.mentions(p, nm) for p in s.pattern if p is not None):
                if not self.mentions(v, nm):
                    out.append(s)
                    continue
                if not s.add:
                    d = v - self.sel_content(c, hole, j)
                    if not self.mentions(d, nm):
                        val = (lambda idx, s=s, j=j: s.value(idx) - self.sel_content(c, idx, j)) if callable(s.value) else d
                        out.append(Store(s.quants, s.guard, s.pattern, val, s.loc, True))
                        continue
            mu = ('mu',) + tuple(nm.split(':')[1:])
            b = SContent(lambda idx: tm.app('sel', mu, *idx), (), ('base',) + mu)
            return b, b
        return before, SContent(before.base, before.stores + tuple(out), before.bkey)

    def quantify_list(self, h0, c, k, N, full, base, out):
        n = 0
        while n < len(h0.segs) and n < len(c.segs) and h0.segs[n] is c.segs[n]:
            n += 1
        segs = list(base.segs)
        tail = c.segs[n:]
        cb = base.base
        if c.base is not h0.base:
            cb = None
        token = object()
        for s in tail:
            g = tm.restrict(s.guard, full.pc) if s.guard is not TRUE else TRUE
            segs.append(Seg('s', g, (self.freeze(s.value, full) if s.kind == 'e' else s.value, s.kind, s.k, s.n), k, N,
                            self.freeze(s.key, full) if s.key is not None else None, s.loc, (token, len(tail)) if len(tail) > 1 else None))
        m = 0
        while m < len(h0.stores) and m < len(c.stores) and h0.stores[m] is c.stores[m]:
            m += 1
        stores = list(base.stores) + [(((k, N),) + tuple(q), g, i, v if isinstance(v, tuple) and v and v[0] == 'frz' else ('frz', self.freeze(v, full)))
                                      for q, g, i, v in c.stores[m:]]
        return LContent(cb, segs, stores)

    def close_elem(self, oid, h0, c, k, N, st, full, out):
        """fields of the generic element written in the loop become columns"""
        lazy = oid[1:]
        if lazy[0] != 'coll' or not isinstance(lazy[2], T):
            out.heap[oid] = c
            return
        if lazy[2] is not lift(k):
            if k in lazy[2].atoms():
                # element of another collection addressed through this loop: forget precise values
                for f, v in c.items():
                    old = h0.get(f, UNBOUND)
                    if old is UNBOUND:
                        old = self.lazy_field(oid, f, full)
                    if not self.same(old, v) or self.arr_changed(old, v, st, full):
                        self.forget_col(lazy[1], f, out)
                return
            out.heap[oid] = c
            return
        col = dict(out.heap.get(('col', lazy[1]), {}))
        for f, v in c.items():
            base = self.lazy_field(oid, f, st)
            if base is UNBOUND:
                base = None
            if self.same(base, v) and not self.arr_changed(base, v, st, full):
                continue
            try:
                col[f] = (k, self.freeze(v, full))
            except Unsupported:
                col[f] = (k, ('v', Opq(('frozen', str(oid), f))))
        if col:
            out.heap[('col', lazy[1])] = col
            # cached generic elements with other indices are stale
            for o2 in list(out.heap):
                if isinstance(o2, tuple) and o2[0] == 'el' and o2[1] == 'coll' and o2[2] == lazy[1]:
                    del out.heap[o2]

    def arr_changed(self, a, b, sa, sb):
        if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)) and a.shape == b.shape:
            ca, cb = self.cells(a, sa), self.cells(b, sb)
            return any(x is not y for x, y in zip(ca.ravel(), cb.ravel()))
        return False

    def forget_col(self, coll, f, out):
        col = dict(out.heap.get(('col', coll), {}))
        self.fresh += 1
        col[f] = (tm.atom('sym', 'ι0'), ('v', Opq(('forgotten', coll, f, self.fresh))))
        out.heap[('col', coll)] = col

    def join_cols(self, c, oid, x, y, sa, sb, out):
        r = {}
        for f in set(x) | set(y):
            a, b = x.get(f), y.get(f)
            if a is b:
                r[f] = a
                continue
            k = (a or b)[0]
            any_cls = None
            coll = oid[1]
            for o2, cl in getattr(self, 'lazy_cls', {}).items():
                if o2[1] == 'coll' and o2[2] == coll:
                    any_cls = cl
            def val(z, s):
                if z is not None:
                    return self.thaw(z[1], {z[0]: lift(k)}, s)
                spec = self.field_spec(any_cls, f)
                return self.make_sym(spec, ('coll', coll, lift(k)), f, s)
            va, vb = val(a, sa), val(b, sb)
            r[f] = (k, self.freeze(self.join(c, va, vb, sa, sb, out), out))
        return r

    # -- expressions ------------------------------------------------------------
    def const(self, v):
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is None or isinstance(v, (str, bytes)):
            return v
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            raise Unsupported('complex')
        return lift(v)

    def eval(self, n, st):
        try:
            m = getattr(self, 'e_' + type(n).__name__)
        except AttributeError:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return self.const(n.value)

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        if isinstance(v, Choice):
            alts = [(g, x) for g, x in v.alts if (g & st.pc) is not FALSE]
            if len(alts) == 1:
                return alts[0][1]
        return v

    def e_Attribute(self, n, st):
        return self.getattr(self.eval(n.value, st), n.attr, st)

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        k = self.eval(n.slice, st)
        return self.np.getitem(o, k, st)

    def e_Slice(self, n, st):
        f = lambda x: self.eval(x, st) if x is not None else None
        return Slc(f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, st):
        return tuple(self.elts(n.elts, st))

    def elts(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.np.unpack(self.eval(e.value, st), None, st)
            else:
                out.append(self.eval(e, st))
        return out

    def e_List(self, n, st):
        return self.lst(self.elts(n.elts, st), st)

    def e_Set(self, n, st):
        return self.lst(self.elts(n.elts, st), st, 'set')

    def e_Dict(self, n, st):
        oid = self.new_oid()
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st)
                if isinstance(d, Dct):
                    segs += list(self.content(d.oid, st).segs)
                continue
            kk = self.eval(k, st)
            segs.append(Seg('e', TRUE, self.eval(v, st), key=kk))
        st.heap[oid] = LContent(None, segs)
        return Dct(oid)

    def e_JoinedStr(self, n, st):
        parts = []
        ok = True
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st)
                if isinstance(x, str):
                    parts.append(x)
                elif isinstance(x, T) and x.const() is not None and v.format_spec is None:
                    parts.append(str(x.const()))
                    if not isinstance(x.const(), int):
                        ok = False
                else:
                    parts.append(self.key(x, st))
                    ok = False
        if ok:
            return ''.join(parts)
        return Opq(('fstr',) + tuple(parts), 'str')

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.np.binop(type(n.op).__name__, a, b, st)

    def e_UnaryOp(self, n, st):
        a = self.eval(n.operand, st)
        op = type(n.op).__name__
        if op == 'Not':
            return ~self.truth(a, st)
        return self.np.unop(op, a, st)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], st)
        for e in n.values[1:]:
            c = self.truth(v, st)
            go = c if is_and else ~c
            pc = st.pc & go
            if pc is FALSE:
                continue
            if (st.pc & ~go) is FALSE:
                v = self.eval(e, st)
                continue
            s2 = st.fork(pc)
            try:
                w = self.eval(e, s2)
            except Dead:
                st.pc = st.pc & ~go
                continue
            s1 = st.fork(st.pc & ~go)
            ms = self.merge(s2, s1)
            cc = tm.restrict(go, ms.pc)
            if isinstance(v, B) and isinstance(w, B):
                v2 = tm.bite(cc, w, v)
            else:
                v2 = self.join(cc, w, v, s2, s1, ms)
            st.become(ms)
            v = v2
        return v

    def e_IfExp(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        if (st.pc & ~c) is FALSE:
            return self.eval(n.body, st)
        if (st.pc & c) is FALSE:
            return self.eval(n.orelse, st)
        s1, s2 = st.fork(st.pc & c), st.fork(st.pc & ~c)
        self.narrow(n.test, s1, True)
        self.narrow(n.test, s2, False)
        try:
            a = self.eval(n.body, s1)
        except Dead:
            st.become(s2)
            return self.eval(n.orelse, st)
        try:
            b = self.eval(n.orelse, s2)
        except Dead:
            st.become(s1)
            return a
        ms = self.merge(s1, s2)
        cc = tm.restrict(s1.pc, ms.pc)
        v = self.join(cc, a, b, s1, s2, ms)
        st.become(ms)
        return v

    def e_Compare(self, n, st):
        a = self.eval(n.left, st)
        res = None
        for op, e in zip(n.ops, n.comparators):
            b = self.eval(e, st)
            r = self.np.compare(type(op).__name__, a, b, st)
            if res is None:
                res = r
            else:
                x, y = self.truth(res, st), self.truth(r, st)
                res = x & y
            a = b
        return res

    def e_Call(self, n, st):
        # super().method(...)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            fr = self.frames[-1]
            f = self.find_method_super(fr, n.func.attr, st)
            if f is None:
                for a in n.args:
                    self.eval(a, st)
                return None
            first = fr.fn.node.args.args[0].arg
            slf = st.env[first]
            args = [slf] + self.elts(n.args, st)
            kw = {k.arg: self.eval(k.value, st) for k in n.keywords if k.arg}
            return self.call_fn(f, args, kw, st)
        f = self.eval(n.func, st)
        args = self.elts(n.args, st)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if isinstance(v, Dct):
                    for s in self.content(v.oid, st).segs:
                        kw[s.key] = s.value
            else:
                kw[k.arg] = v
        loc = self.loc
        fr = self.frames[-1]
        self.loc = (fr.mod.rel, getattr(n, 'lineno', 0), fr.fn.qual if fr.fn else '')
        try:
            return self.call(f, args, kw, st)
        finally:
            self.loc = loc

    def find_method_super(self, fr, name, st):
        first = fr.fn.node.args.args[0].arg
        slf = st.env.get(first)
        cls = slf.cls if isinstance(slf, Obj) else fr.self_cls
        return self.find_method(cls, name, after=fr.self_cls)

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        return Fn(n, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + '.<lambda>', fr.self_cls, {**(fr.fn.closure or {} if fr.fn else {}), **st.env})

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind):
        oid = self.new_oid()
        st.heap[oid] = LContent(None, ())
        saved = dict(st.env)

        def emit(s):
            c = s.heap[oid]
            if kind == 'dict':
                seg = Seg('e', TRUE, self.eval(n.value, s), key=self.eval(n.key, s), loc=self.loc)
            else:
                seg = Seg('e', TRUE, self.eval(n.elt, s), loc=self.loc)
            c = s.heap[oid]
            s.heap[oid] = LContent(c.base, c.segs + (seg,), c.stores)
            return s

        def level(i, s):
            if i == len(n.generators):
                return emit(s)
            g = n.generators[i]
            segs = self.np.iterate(self.eval(g.iter, s), s)

            def body(s):
                for cond in g.ifs:
                    c = self.truth(self.eval(cond, s), s)
                    if (s.pc & c) is FALSE:
                        return s
                    if (s.pc & ~c) is FALSE:
                        continue
                    s1, s2 = s.fork(s.pc & c), s.fork(s.pc & ~c)
                    r = level(i + 1, s1) if cond is g.ifs[-1] else body_rest(s1, cond)
                    return self.merge(r, s2)
                return level(i + 1, s)

            def body_rest(s, cond):
                raise Unsupported('several comprehension conditions')
            fr = self.frames[-1]
            ctl = {'breaks': [], 'continues': []}
            fr.loops.append(ctl)
            try:
                cur = s
                for seg in segs:
                    if seg[0] == 'c':
                        skip = None
                        if (cur.pc & ~seg[1]) is not FALSE:
                            skip = cur.fork(cur.pc & ~seg[1])
                            cur = cur.fork(cur.pc & seg[1])
                        self.assign(g.target, seg[2], cur)
                        cur = body(cur)
                        if skip is not None:
                            cur = self.merge(cur, skip)
                    else:
                        cur = self.generic_loop(g, cur, seg[1],
                                                lambda k, s2, seg=seg: self.assign(g.target, seg[2](k, s2), s2),
                                                None, guard=seg[3] if len(seg) > 3 else None,
                                                pyBody=lambda k, s2: body(s2))
                return cur
            finally:
                fr.loops.pop()
        try:
            r = level(0, st)
            if r is not st:
                st.become(r)
        finally:
            st.env = saved if False else {**saved}
        return Dct(oid) if kind == 'dict' else Lst(oid, kind)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value else None
        oid = st.env.get('$gen')
        if oid is None:
            raise Unsupported('yield')
        c = self.content(oid, st)
        st.heap[oid] = LContent(c.base, c.segs + (Seg('e', TRUE, v, loc=self.loc),), c.stores)
        return None

    # truth ------------------------------------------------------------------
    def truth(self, v, st):
        if isinstance(v, B):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, T):
            return ~tm.eq0(v)
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, (Lst, Dct)):
            n = self.np.length(v, st)
            if isinstance(n, T):
                c = self.content(v.oid, st)
                if c.base is None and c.segs and all(s.kind == 'e' for s in c.segs):
                    r = FALSE
                    for s in c.segs:
                        r = r | s.guard
                    return r
                return ~tm.eq0(n)
            return tm.pred('truthy', self.key(v, st))
        if isinstance(v, (Arr, View)):
            c = self.cells(v, st).ravel()
            if len(c) == 1:
                return ~tm.eq0(c[0])
            return tm.pred('truthy', self.key(v, st))
        if isinstance(v, (Obj, Fn, Bound, Cls, Mod, Ext, BoundExt)):
            return TRUE
        if isinstance(v, Opq):
            if isinstance(v.key, tuple) and v.key and v.key[0] == 'notnone':
                return TRUE
            return tm.pred('truthy', v.key)
        if isinstance(v, Choice):
            r = FALSE
            for g, x in v.alts:
                r = r | (g & self.truth(x, st))
            return r
        if isinstance(v, NObj):
            return v.truth
        if isinstance(v, (SArr, Mat)):
            return tm.pred('truthy', self.key(v, st))
        if isinstance(v, Rng):
            return TRUE
        raise Unsupported('truth of %r' % (v,))


def simple_pair(h, c):
    """two states of one list of known length"""
    return (isinstance(h, LContent) and isinstance(c, LContent) and h.base is None and c.base is None and not h.stores and not c.stores
            and len(h.segs) == len(c.segs) and all(s.kind == 'e' and s.guard is TRUE for s in h.segs + c.segs))


def l_name(l, bufs=()):
    if l[0] == 'env':
        return l[1]
    if l[0] in ('arr', 'lst'):
        o = l[1] if isinstance(l[1], tuple) else l[0].replace('arr', 'buf') + (str(bufs.index(l[1])) if l[1] in bufs else '')
        return '%s[%s]' % (o if not isinstance(o, tuple) else '.'.join(map(str, o)), l[2])
    o = l[1] if isinstance(l[1], tuple) else 'obj'
    return '%s.%s' % (o if not isinstance(o, tuple) else '.'.join(map(str, o)), l[2])


def load_class_body(node):
    for n in node.body:
        yield n
        if isinstance(n, ast.If):
            yield from n.body


def walk_own(fn):
    """nodes of a function excluding nested function bodies"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
