"""Value numbers.

Scalars are interned polynomials over interned atoms (symbols and uninterpreted
applications); conditions are interned reduced ordered BDDs over interned
predicates.  Two expressions get the same object when their normal forms agree.
`equal` additionally uses *random interpretation* (Gulwani & Necula, POPL 2004)
of the two value numbers to decide pairs whose normal forms differ.
"""
import contextlib
import math
import random
from fractions import Fraction
from decimal import Decimal


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return _num(x)
    return _num(Fraction(Decimal(repr(x))))


class Atom:
    __slots__ = ('id', 'op', 'args')

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        if self.op == 'fld':
            return '%s[%s].%s' % (self.args[0], self.args[-1], '.'.join(str(a) for a in self.args[1:-1]))
        if _depth[0] > 4:
            return '%s#%d' % (self.op, self.id)
        if _budget[0] is not None:
            _budget[0] -= 1
            if _budget[0] < 0:
                return '...'
        _depth[0] += 1
        try:
            return '%s(%s)' % (self.op, ', '.join(show(a) for a in self.args))
        finally:
            _depth[0] -= 1


_depth = [0]
_budget = [None]        # atoms still to be written out, within show()


def show(a):
    if _depth[0] > 5:
        return '...'
    if _budget[0] is not None:
        s = repr(a)
    else:
        _budget[0] = 60
        try:
            s = repr(a)
        finally:
            _budget[0] = None
    return s if len(s) < 300 else s[:300] + '...'


_atoms = {}
_terms = {}


def atom(op, *args):
    key = (op, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.op = op
        a.args = args
        _atoms[key] = a
    return a


class T:
    __slots__ = ('m', 'id', '_atoms')

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for mono, c in self.m.items():
            if len(out) > 12:
                out.append('...')
                break
            s = '*'.join(('%r^%s' % (a, e)) if e != 1 else repr(a) for a, e in mono)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        return ' + '.join(out).replace('+ -', '- ')

    # arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if not o.m:
            return self
        if not self.m:
            return o
        d = dict(self.m)
        for k, c in o.m.items():
            n = d.get(k, 0) + c
            if n == 0:
                del d[k]
            else:
                d[k] = _num(n)
        return mk(d)
    __radd__ = __add__

    def __neg__(self):
        return mk({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        return _mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def __pow__(self, n):
        return power(self, n)

    # queries ----------------------------------------------------------
    def const(self):
        """the rational value if this is a constant, else None"""
        if not self.m:
            return 0
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if k == ():
                return c
        return None

    def as_sym_multiple(self, name):
        """the factor of a multiple of one symbol, or None"""
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'sym' and k[0][0].args[0] == name:
                return c
        return None

    def as_atom(self):
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return None

    def atoms(self):
        """all atoms occurring anywhere (deep)"""
        if self._atoms is None:
            s = set()
            for mono in self.m:
                for a, _ in mono:
                    if a not in s:
                        s.add(a)
                        s |= atom_atoms(a)
            self._atoms = frozenset(s)
        return self._atoms

    def shallow(self):
        return {a for mono in self.m for a, _ in mono}

    def __bool__(self):
        raise TypeError('truth value of a term')


_atom_atoms = {}


def atom_atoms(a):
    r = _atom_atoms.get(a)
    if r is None:
        s = set()
        for x in a.args:
            s |= deep_atoms(x)
        r = _atom_atoms[a] = frozenset(s)
    return r


def deep_atoms(x):
    if isinstance(x, T):
        return x.atoms()
    if isinstance(x, Atom):
        return atom_atoms(x) | {x}
    if isinstance(x, B):
        return x.atoms()
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= deep_atoms(y)
        return s
    return frozenset()


def mk(d):
    key = frozenset(d.items())
    t = _terms.get(key)
    if t is None:
        t = T()
        t.m = dict(sorted(d.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]]))
        t.id = len(_terms)
        t._atoms = None
        _terms[key] = t
    return t


ZERO = mk({})
ONE = mk({(): 1})


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Atom):
        return mk({((x, 1),): 1})
    if isinstance(x, float):
        if math.isinf(x):
            s = sym('inf')
            return s if x > 0 else -s
        if math.isnan(x):
            return sym('nan')
    if isinstance(x, (bool, int, float, Fraction)):
        f = frac(x)
        return mk({(): f}) if f != 0 else ZERO
    import numpy as _np
    if isinstance(x, _np.generic):
        return lift(x.item())
    raise TypeError('lift %r' % (x,))


def sym(name):
    return lift(atom('sym', name))


def app(op, *args):
    return lift(atom(op, *args))


PI = sym('pi')


def _mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0:
            del d[x]
        else:
            d[x] = n
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def _needs_reduce(mono):
    for a, e in mono:
        if a.op == 'sqrt' and (e >= 2 or e < 0):
            return True
        if a.op == 'abs' and (e >= 2 or e <= -2):
            return True
        if a.op == 'sign' and (e >= 2 or e < 0):
            return True
    return False


LETS = 150
LETMIN = 6


def let(x):
    """share a large value under one name (let(x) = x); keeps products from being expanded"""
    if len(x.m) <= 1:
        return x
    c = min(x.m.items(), key=lambda kc: tuple((a.id, e) for a, e in kc[0]))[1]
    if c == 1:
        return lift(atom('let', x))
    y = mk({k: _num(frac(Fraction(v) / Fraction(c))) for k, v in x.m.items()})
    return mk({((atom('let', y), 1),): c})


@contextlib.contextmanager
def compact(lets=8, letmin=2):
    """share subterms early: for large straight-line numerical code"""
    global LETS, LETMIN
    old = LETS, LETMIN
    LETS, LETMIN = lets, letmin
    try:
        yield
    finally:
        LETS, LETMIN = old


def unlet(x, limit=4000):
    """expand shared names"""
    global LETS
    old = LETS
    LETS = 0
    try:
        for _ in range(8):
            ls = {a: a.args[0] for a in x.shallow() if a.op == 'let'}
            if not ls or len(x.m) > limit:
                return x
            x = subst(x, ls)
        return x
    finally:
        LETS = old


def _mul(x, y):
    if not x.m or not y.m:
        return ZERO
    if y is ONE:
        return x
    if x is ONE:
        return y
    if LETS and len(x.m) * len(y.m) > LETS and len(x.m) > 1 and len(y.m) > 1:
        if len(x.m) > LETMIN:
            x = let(x)
        if len(y.m) > LETMIN:
            y = let(y)
    d = {}
    pend = []
    for k1, c1 in x.m.items():
        for k2, c2 in y.m.items():
            k = _mono_mul(k1, k2)
            c = c1 * c2
            if _needs_reduce(k):
                pend.append((k, c))
                continue
            n = d.get(k, 0) + c
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = _num(n)
    r = mk(d)
    for k, c in pend:
        r = r + _reduce(k, c)
    return r


def _reduce(mono, c):
    rest = []
    extra = ONE
    for a, e in mono:
        if a.op == 'sqrt' and (e >= 2 or e < 0):
            p = a.args[0]
            h, odd = divmod(e, 2)
            if h:
                extra = extra * power(p, h)
            if odd:
                rest.append((a, 1))
        elif a.op == 'abs' and (e >= 2 or e <= -2):
            p = a.args[0]
            s = 1 if e > 0 else -1
            h, odd = divmod(abs(e), 2)
            extra = extra * power(p, 2 * h * s)
            if odd:
                rest.append((a, s))
        elif a.op == 'sign' and (e >= 2 or e < 0):
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    base = mk({tuple(rest): c})
    return base * extra


def power(x, n):
    if isinstance(n, T):
        c = n.const()
        if c is None:
            return app('pow', x, n)
        n = c
    n = frac(n)
    if isinstance(n, Fraction):
        if n.denominator == 2:
            return power(sqrt(x), n.numerator)
        return app('pow', x, lift(n))
    if n == 0:
        return ONE
    if n < 0:
        return power(inv(x), -n)
    r = ONE
    b = x
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def ratsimp(t):
    """collapse N/D when N is a constant multiple of D"""
    if not any(a.op == 'inv' or e < 0 for k in t.m for a, e in k):
        return t
    lim = 3000 if LETS >= 100 or not LETS else 60
    if len(t.m) > min(400, lim):
        return t
    key = t.id
    r = _rat_memo.get(key)
    if r is not None:
        return r
    r = t
    den = ONE
    num = t
    for _ in range(8):
        neg, invs = {}, {}
        for mono in num.m:
            for a, e in mono:
                if a.op == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = mk({tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda p: p[0].id)): 1})
            num, den = num * f, den * f
            continue
        if invs:
            a, e = sorted(invs.items(), key=lambda p: -p[0].id)[0]
            p = a.args[0]
            out = ZERO
            for mono, c in num.m.items():
                ee, rest = 0, []
                for b, f in mono:
                    if b is a:
                        ee = f
                    else:
                        rest.append((b, f))
                out = out + mk({tuple(rest): c}) * power(p, e - ee)
                if len(out.m) > lim:
                    _rat_memo[key] = r
                    return r
            num = out
            den = den * power(p, e)
            if len(num.m) > lim or len(den.m) > lim:
                break
            continue
        q = ratio(num, den)
        if q is not None:
            r = lift(q)
        elif not num.m:
            r = ZERO
        break
    _rat_memo[key] = r
    return r


_rat_memo = {}


def inv(x):
    x = ratsimp(x)
    c = x.const()
    if c is not None:
        if c == 0:
            return app('inv', ZERO)
        return lift(Fraction(1) / c)
    if len(x.m) == 1:
        (k, c), = x.m.items()
        out = lift(Fraction(1) / c)
        for a, e in k:
            if a.op == 'inv':
                out = out * power(a.args[0], e)
            elif a.op == 'sqrt':
                # 1/sqrt(p) = sqrt(p)/p
                out = out * power(lift(a), e) * power(inv(a.args[0]), e)
            else:
                out = out * mk({((a, -e),): 1})
        return out
    lead = next(iter(x.m.values()))
    p = x * lift(Fraction(1) / lead)
    # pull out the monomial content so that 1/(a*b + a*c) = 1/a * 1/(b+c)
    common = None
    for k in p.m:
        d = dict(k)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and min(e, d[a]) > 0}
    common = {a: e for a, e in (common or {}).items() if e > 0 and a.op not in ('sqrt',)}
    out = lift(Fraction(1) / lead)
    if common:
        cm = mk({tuple(sorted(common.items(), key=lambda q: q[0].id)): 1})
        q = {}
        for k, cc in p.m.items():
            d = dict(k)
            for a, e in common.items():
                if d[a] == e:
                    del d[a]
                else:
                    d[a] -= e
            q[tuple(sorted(d.items(), key=lambda z: z[0].id))] = cc
        return out * inv(cm) * inv(mk(q))
    return out * app('inv', p)


def sqrt(x):
    x = ratsimp(x)
    c = x.const()
    if c is not None and c >= 0:
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return lift(Fraction(a, b))
    if len(x.m) == 1:
        (k, c), = x.m.items()
        if c > 0 and all(e % 2 == 0 for _, e in k) and k:
            root = sqrt(lift(c))
            out = root
            for a, e in k:
                out = out * absval(power(lift(a), e // 2))
            return out
    return app('sqrt', x)


def absval(x):
    c = x.const()
    if c is not None:
        return lift(abs(c))
    a = x.as_atom()
    if a is not None and a.op in ('sqrt', 'abs'):
        return x
    lead = next(iter(x.m.values()))
    if lead < 0:
        x = -x
    return app('abs', x)


def fmax(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return lift(max(ca, cb))
    if a is b:
        return a
    d = (a - b).const()
    if d is not None:
        return a if d > 0 else b
    for x, y in ((a, b), (b, a)):
        k = x.as_sym_multiple('inf')
        if k:
            return x if k > 0 else y
    if a is -b:
        return absval(a)
    xs = set()
    for t in (a, b):
        at = t.as_atom()
        if at is not None and at.op == 'max':
            xs |= set(at.args)
        else:
            xs.add(t)
    cs = [t for t in xs if t.const() is not None]
    if len(cs) > 1:
        m = max(cs, key=lambda t: t.const())
        xs = (xs - set(cs)) | {m}
    if len(xs) == 1:
        return next(iter(xs))
    return app('max', *sorted(xs, key=lambda t: t.id))


def fmin(a, b):
    return -fmax(-a, -b)


def fun(name, x, *more):
    c = x.const()
    if not more and c is not None:
        if name == 'sin' and c == 0:
            return ZERO
        if name == 'cos' and c == 0:
            return ONE
        if name in ('floor', 'int'):
            return lift(math.floor(c) if name == 'floor' else int(c))
        if name == 'ceil':
            return lift(math.ceil(c))
        if name == 'sign':
            return lift((c > 0) - (c < 0))
        if name == 'exp' and c == 0:
            return ONE
        if name == 'log' and c == 1:
            return ZERO
        if name == 'acos' and c == 1:
            return ZERO
        if name == 'asin' and c == 0:
            return ZERO
    if name in ('sin', 'sinh', 'tan', 'asin', 'atan', 'sign') and x.m and next(iter(x.m.values())) < 0:
        return -fun(name, -x)
    if name in ('cos', 'cosh') and x.m and next(iter(x.m.values())) < 0:
        return fun(name, -x)
    if name == 'sin' and x is PI:
        return ZERO
    if name == 'cos' and x is PI:
        return lift(-1)
    return app(name, x, *more)


# ---------------------------------------------------------------------------
# conditions
# ---------------------------------------------------------------------------

class B:
    """interned ROBDD node"""
    __slots__ = ('v', 'hi', 'lo', 'id', '_atoms', '_vars')

    def __and__(self, o):
        return bite(self, o, FALSE)

    def __or__(self, o):
        return bite(self, TRUE, o)

    def __invert__(self):
        return bite(self, FALSE, TRUE)

    def __bool__(self):
        raise TypeError('truth value of a condition')

    def vars(self):
        if self._vars is None:
            s = set()
            stack, seen = [self], set()
            while stack:
                n = stack.pop()
                if n.id in seen or n.v is None:
                    continue
                seen.add(n.id)
                s.add(n.v)
                stack += [n.hi, n.lo]
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        if self._atoms is None:
            s = set()
            for v in self.vars():
                s.add(v)
                s |= atom_atoms(v)
            self._atoms = frozenset(s)
        return self._atoms

    def __repr__(self):
        if self is TRUE:
            return 'true'
        if self is FALSE:
            return 'false'
        paths = []

        def walk(n, acc):
            if len(paths) > 6:
                return
            if n is TRUE:
                paths.append(' & '.join(acc) or 'true')
                return
            if n is FALSE:
                return
            walk(n.hi, acc + [repr(n.v)])
            walk(n.lo, acc + ['!' + repr(n.v)])
        walk(self, [])
        return '{' + ' | '.join(paths) + '}'


_bn = {}


def _bnode(v, hi, lo):
    if hi is lo:
        return hi
    key = (v.id if v is not None else -1, hi.id if hi is not None else -1, lo.id if lo is not None else -2)
    n = _bn.get(key)
    if n is None:
        n = B()
        n.v, n.hi, n.lo = v, hi, lo
        n.id = len(_bn) + 2
        n._atoms = None
        n._vars = None
        _bn[key] = n
    return n


TRUE = B()
TRUE.v = None; TRUE.hi = TRUE.lo = None; TRUE.id = 1; TRUE._atoms = frozenset(); TRUE._vars = frozenset()
FALSE = B()
FALSE.v = None; FALSE.hi = FALSE.lo = None; FALSE.id = 0; FALSE._atoms = frozenset(); FALSE._vars = frozenset()

_ite_memo = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    vs = [x.v for x in (f, g, h) if x.v is not None]
    v = min(vs, key=lambda a: a.id)

    def cof(x, b):
        if x.v is v:
            return x.hi if b else x.lo
        return x
    hi = bite(cof(f, True), cof(g, True), cof(h, True))
    lo = bite(cof(f, False), cof(g, False), cof(h, False))
    r = _bnode(v, hi, lo)
    _ite_memo[key] = r
    return r


def bvar(a):
    return _bnode(a, TRUE, FALSE)


def pred(op, *args):
    return bvar(atom(op, *args))


_restrict_memo = {}


def restrict(f, care):
    """simplify f knowing that care holds"""
    if care is TRUE or f.v is None or care is FALSE:
        return f
    key = (f.id, care.id)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    if (f & care) is FALSE:
        r = FALSE
    elif (~f & care) is FALSE:
        r = TRUE
    else:
        v = f.v
        if care.v is not None and care.v.id < v.id:
            r = restrict(f, care.hi | care.lo)
        else:
            chi = care.hi if care.v is v else care
            clo = care.lo if care.v is v else care
            if chi is FALSE:
                r = restrict(f.lo, clo)
            elif clo is FALSE:
                r = restrict(f.hi, chi)
            else:
                r = _bnode_ord(v, restrict(f.hi, chi), restrict(f.lo, clo))
    _restrict_memo[key] = r
    return r


def _bnode_ord(v, hi, lo):
    return bite(bvar(v), hi, lo)


def implies(a, b):
    return (a & ~b) is FALSE


def cofactor(f, v, val):
    if f.v is None:
        return f
    if f.v is v:
        return f.hi if val else f.lo
    return bite(bvar(f.v), cofactor(f.hi, v, val), cofactor(f.lo, v, val))


def _pos_scale(p):
    lead = next(iter(p.m.values()))
    return p * lift(Fraction(1) / abs(lead))


def _const_ites(d):
    """the ite atom when d is built from ite's with constant arms only"""
    if len(d.m) > 4:
        return None
    r = None
    for k in d.m:
        for a, e in k:
            if a.op != 'ite' or e < 0 or a.args[1].const() is None or a.args[2].const() is None:
                return None
            r = a
    return r


def _push(a, d, f):
    x, y = subst(d, {a: a.args[1]}), subst(d, {a: a.args[2]})
    return bite(a.args[0], f(x), f(y))


def lt(a, b):
    """a < b"""
    d = ratsimp(a - b)
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if len(d.m) <= 2:
        # a number against an infinite one
        e = d - lift(d.m.get((), 0))
        c = e.as_sym_multiple('inf')
        if c:
            return TRUE if c < 0 else FALSE
    i = _const_ites(d)
    if i is not None:
        return _push(i, d, lambda x: lt(x, ZERO))
    at = d.as_atom()
    if at is not None and at.op in ('sqrt', 'abs'):
        return FALSE
    # a sum of non-negative quantities is not negative
    if all(c > 0 for c in d.m.values()) and all(all(_nonneg_factor(a_, e) for a_, e in k) for k in d.m):
        return FALSE
    n = -d
    if all(c > 0 for c in n.m.values()) and all(all(_nonneg_factor(a_, e) for a_, e in k) for k in n.m):
        # -d >= 0 : d < 0 iff d != 0
        return ~eq0(d)
    return pred('lt0', _pos_scale(d))


def _nonneg_factor(a, e):
    return e % 2 == 0 or a.op in ('sqrt', 'abs', 'len') or (a.op == 'sym' and a.args[0] == 'inf')


def le(a, b):
    return ~lt(b, a)


def eq0(d):
    d = ratsimp(d)
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    i = _const_ites(d)
    if i is not None:
        return _push(i, d, eq0)
    if len(d.m) == 1:
        # c*a*b*... = 0  iff one of them is 0
        (k, c), = d.m.items()
        r = FALSE
        for a, e in k:
            if a.op == 'sqrt':
                r = r | eq0(a.args[0])
            elif a.op == 'abs':
                r = r | eq0(a.args[0])
            elif a.op == 'inv':
                continue
            elif e < 0:
                continue
            else:
                r = r | pred('eq0', lift(a))
        return r
    lead = next(iter(d.m.values()))
    if all(c > 0 for c in d.m.values()) and all(all(e % 2 == 0 for _, e in k) and k for k in d.m):
        r = TRUE
        for k in d.m:
            q = FALSE
            for a, e in k:
                if e > 0:
                    q = q | eq0(lift(a))
            r = r & q
        return r
    return pred('eq0', d * lift(Fraction(1) / lead))


def eqB(a, b):
    return eq0(a - b)


_ite_terms = {}


def ite(c, a, b):
    """gated phi"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    # specialise the arms
    a = spec(a, c)
    b = spec(b, ~c)
    if a is b:
        return a
    if c.v.op == 'lt0' and c.hi.v is None and c.lo.v is None:
        p = c.v.args[0]
        d = a - b
        neg = c is not bvar(c.v)
        if neg:
            d = -d
        r = ratio(d, p)
        if r is not None:
            # c = (p<0) ; value = b + (p<0)*(r p)
            if r < 0:
                return fmax(a, b)
            return fmin(a, b)
    if c.v is not None and c.hi is FALSE and c.lo is TRUE:
        return ite(~c, b, a)
    return app('ite', c, a, b)


def ratio(d, p):
    """d = r*p with r constant"""
    if len(d.m) != len(p.m) or not d.m:
        return None
    r = None
    for k, c in d.m.items():
        if k not in p.m:
            return None
        q = Fraction(c) / p.m[k]
        if r is None:
            r = q
        elif r != q:
            return None
    return r


_spec_memo = {}


def spec(t, c):
    """simplify the ite's inside t knowing c"""
    if c is TRUE or c.v is None:
        return t
    if not any(a.op == 'ite' for a in t.shallow()):
        return t
    key = (t, c)
    r = _spec_memo.get(key)
    if r is None:
        r = t
        out = ZERO
        for mono, co in t.m.items():
            f = lift(co)
            for a, e in mono:
                if a.op == 'ite':
                    cc = restrict(a.args[0], c)
                    x = ite(cc, a.args[1], a.args[2]) if cc is not a.args[0] else lift(a)
                    f = f * power(x, e)
                else:
                    f = f * mk({((a, e),): 1})
            out = out + f
        r = out
        _spec_memo[key] = r
    return r


# ---------------------------------------------------------------------------
# substitution
# ---------------------------------------------------------------------------

def subst(x, env, memo=None):
    """env: Atom -> T.  Works on T, B, Atom-args, tuples."""
    if memo is None:
        memo = {}
    return _subst(x, env, memo)


REBUILD = {'let': lambda x: let(x)}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return app(op, *args)


def _subst(x, env, memo):
    if isinstance(x, T):
        key = ('t', x.id)
        if key in memo:
            return memo[key]
        if not (x.atoms() & env.keys()):
            memo[key] = x
            return x
        out = ZERO
        for mono, c in x.m.items():
            f = lift(c)
            for a, e in mono:
                f = f * power(_subst_atom(a, env, memo), e)
            out = out + f
        memo[key] = out
        return out
    if isinstance(x, B):
        if x.v is None:
            return x
        key = ('b', x.id)
        if key in memo:
            return memo[key]
        if not (x.atoms() & env.keys()):
            memo[key] = x
            return x
        v = _subst_pred(x.v, env, memo)
        r = bite(v, _subst(x.hi, env, memo), _subst(x.lo, env, memo))
        memo[key] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, env, memo) for y in x)
    if isinstance(x, Atom):
        r = _subst_atom(x, env, memo)
        at = r.as_atom()
        return at if at is not None else r
    return x


def _subst_atom(a, env, memo):
    if a in env:
        return env[a]
    if not (atom_atoms(a) & env.keys()):
        return lift(a)
    key = ('a', a.id)
    if key in memo:
        return memo[key]
    args = tuple(_subst(y, env, memo) for y in a.args)
    r = rebuild(a.op, args)
    memo[key] = r
    return r


PRED_REBUILD = {
    'lt0': lambda p: lt(p, ZERO),
    'eq0': lambda p: eq0(p),
}


def _subst_pred(v, env, memo):
    if v in env:
        e = env[v]
        return e if isinstance(e, B) else pred('truthy', e)
    if not (atom_atoms(v) & env.keys()):
        return bvar(v)
    args = tuple(_subst(y, env, memo) for y in v.args)
    f = PRED_REBUILD.get(v.op)
    if f:
        return f(*args)
    return pred(v.op, *args)


REBUILD.update({
    'sqrt': lambda p: sqrt(p),
    'inv': lambda p: inv(p),
    'abs': lambda p: absval(p),
    'ite': lambda c, a, b: ite(c, a, b),
    'max': lambda *xs: _nmax(xs),
})
for _f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'int', 'sign'):
    REBUILD[_f] = (lambda name: lambda x, *m: fun(name, x, *m))(_f)


def _nmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = fmax(r, x)
    return r


# ---------------------------------------------------------------------------
# derivative of a value number (forward-mode differentiation of the polynomial)
# ---------------------------------------------------------------------------

def diff(t, d):
    """d: dict Atom -> T giving the derivative of basic atoms (default 0)."""
    out = ZERO
    for mono, c in t.m.items():
        for i, (a, e) in enumerate(mono):
            da = _datom(a, d)
            if da is ZERO:
                continue
            rest = ONE
            for j, (b, f) in enumerate(mono):
                if j == i:
                    rest = rest * power(lift(b), f - 1)
                else:
                    rest = rest * power(lift(b), f)
            out = out + lift(c) * lift(e) * rest * da
    return out


class NotDifferentiable(Exception):
    pass


def _datom(a, d):
    if a in d:
        return d[a]
    if not (atom_atoms(a) & d.keys()):
        return ZERO
    x = a.args[0] if a.args and isinstance(a.args[0], T) else None
    if a.op == 'let':
        return diff(x, d)
    if a.op == 'sqrt':
        return diff(x, d) * inv(lift(2) * lift(a))
    if a.op == 'inv':
        return -diff(x, d) * power(lift(a), 2)
    if a.op == 'sin':
        return diff(x, d) * fun('cos', x)
    if a.op == 'cos':
        return -diff(x, d) * fun('sin', x)
    if a.op == 'log':
        return diff(x, d) * inv(x)
    if a.op == 'exp':
        return diff(x, d) * lift(a)
    if a.op == 'ite':
        return ite(a.args[0], diff(a.args[1], d), diff(a.args[2], d))
    if a.op == 'sum':
        i, n, g = a.args
        return mksum(i, n, diff(g, d))
    raise NotDifferentiable(a.op)


# ---------------------------------------------------------------------------
# finite sums over a symbolic range (loop summaries)
# ---------------------------------------------------------------------------

def mksum(i, n, g):
    """sum_{0<=i<n} g ; i is an Atom (bound)."""
    out = ZERO
    for mono, c in g.m.items():
        outer, inner = [], []
        for a, e in mono:
            (inner if (a is i or i in atom_atoms(a)) else outer).append((a, e))
        if not inner:
            out = out + mk({tuple(outer): c}) * n
        else:
            out = out + mk({tuple(outer): c}) * app('sum', i, n, mk({tuple(inner): 1}))
    return out


REBUILD['sum'] = lambda i, n, g: mksum(i if isinstance(i, Atom) else i.as_atom(), n, g)


# ---------------------------------------------------------------------------
# random interpretation
# ---------------------------------------------------------------------------

class Box:
    """the contents of an array (stores over loop ranges), as an argument of a read atom"""
    _n = 0

    def __init__(self, c, n, rank):
        Box._n += 1
        self.id = Box._n
        self.rank = rank
        hole = tuple(sym('ρ%d_%d' % (self.id, i)) for i in range(rank))
        self.hole = [h.as_atom() for h in hole]
        self.base = c.base(hole)
        self.stores = []
        free = set(a for a in deep_atoms(self.base) if a.op == 'sym')
        for s in c.stores[:n]:
            v = s.value(hole) if callable(s.value) else s.value
            qs = [(q, lift(e)) for q, e in s.quants]
            self.stores.append((qs, s.guard, s.pattern, v, s.add))
            own = set()
            for q, e in qs:
                free |= {a for a in deep_atoms(e) if a.op == 'sym'} - own
                own.add(q)
            for x in (v, s.guard) + tuple(p for p in s.pattern if p is not None):
                free |= {a for a in deep_atoms(x) if a.op == 'sym'} - own
        free -= set(self.hole)
        self.free = sorted(free, key=lambda a: a.id)

    def __repr__(self):
        return 'box%d' % self.id

    def table(self, s):
        out = []
        for qs, g, pat, v, add in self.stores:
            d = {}

            def go(i):
                if i == len(qs):
                    if s.B(g):
                        at = tuple(None if p is None else s.integer(p) for p in pat)
                        here = [s.bound[q] for q, _ in qs]
                        if add:
                            d.setdefault(at, []).append(here)
                        else:
                            d[at] = [here]
                    return
                q, e = qs[i]
                old = s.bound.get(q)
                for n in range(s.integer(e)):
                    s.bound[q] = float(n)
                    go(i + 1)
                if old is None:
                    s.bound.pop(q, None)
                else:
                    s.bound[q] = old
            go(0)
            out.append(d)
        return out

    def read(self, s, idx, env):
        idx = [s.integer(i) for i in idx]
        vals = [s.T(e) for e in env]
        key = (self.id, tuple(vals))
        saved = dict(s.bound)
        sval = s.val
        s.bound = dict(zip(self.free, vals))
        try:
            cache = s.tables
            if key not in cache:
                cache[key] = (self.table(s), {})
            tab, memo = cache[key]
            k = tuple(idx)
            if k in memo:
                return memo[k]
            for h, i in zip(self.hole, idx):
                s.bound[h] = float(i)
            r, extra = None, 0
            for (qs, g, pat, v, add), d in zip(reversed(self.stores), reversed(tab)):
                kk = tuple(None if p is None else i for p, i in zip(pat, idx))
                if kk in d:
                    for ns in d[kk]:
                        for (q, _), n in zip(qs, ns):
                            s.bound[q] = n
                        x = s.T(v)
                        if add:
                            extra = extra + x
                    if not add:
                        r = x
                        break
            if r is None:
                r = s.T(self.base)
            r = r + extra
            memo[k] = r
            return r
        finally:
            s.bound = saved


class Sizes:
    """hook giving symbols (or atoms) concrete values, in whose interpretations array reads and sums are evaluated exactly"""
    inst = True

    def __init__(self, vals):
        self.vals = {(k.as_atom() if isinstance(k, T) else k): v for k, v in vals.items()}

    def __call__(self, s, a):
        v = self.vals.get(a)
        return None if v is None else float(v)


class Undef(Exception):
    pass


def _h(*xs):
    r = random.Random(repr(xs))
    return r


class Sample:
    """one random interpretation of symbols, uninterpreted functions and predicates"""

    def __init__(self, seed, grid=False, hooks=None):
        self.seed = seed
        self.grid = grid
        self.val = {}
        self.bval = {}
        self.hooks = hooks or []
        self.bound = {}
        self.inst = any(getattr(h, 'inst', False) for h in self.hooks)
        self.tables = {}
        self.touched = set()        # everything the interpretation had to give a value
        self.crit = {}              # values at which conditions on a single symbol change (grid only)

    def integer(self, t):
        v = self.T(t) if isinstance(t, T) else float(t)
        if abs(v - round(v)) > 1e-6 or abs(v) > 1e6:
            raise Undef
        return int(round(v))

    def basic(self, a):
        r = _h(self.seed, 'b', repr(a))
        if self.grid:
            c = self.crit.get(a)
            if c and r.random() < 0.3:
                return r.choice(c)
            return float(r.choice([-2, -1, 0, 1, 2, 1, 0]))
        return r.uniform(0.3, 1.9) * r.choice([-1, 1])

    def atom(self, a):
        if a in self.bound:
            return self.bound[a]
        self.touched.add(a)
        if a in self.val:
            return self.val[a]
        v = self._atom(a)
        if not self.bound or not (set(self.bound) & (atom_atoms(a) | {a})):
            self.val[a] = v
        return v

    def _atom(self, a):
        for hk in self.hooks:
            v = hk(self, a)
            if v is not None:
                return v
        op = a.op
        if op == 'sym':
            if a.args[0] == 'pi':
                return math.pi
            if a.args[0] == 'inf':
                return 1e30
            return self.basic(a)
        try:
            if op == 'sqrt':
                x = self.T(a.args[0])
                if x < 0:
                    if x > -1e-9:
                        return 0.0
                    raise Undef
                return math.sqrt(x)
            if op == 'inv':
                x = self.T(a.args[0])
                if abs(x) < 1e-9:
                    raise Undef
                return 1.0 / x
            if op == 'let':
                return self.T(a.args[0])
            if op == 'abs':
                return abs(self.T(a.args[0]))
            if op == 'max':
                return max(self.T(x) for x in a.args)
            if op in ('sin', 'cos', 'tan', 'exp', 'asin', 'acos', 'atan', 'log', 'floor', 'ceil', 'sinh', 'cosh', 'log2', 'tanh'):
                return getattr(math, op)(self.T(a.args[0]))
            if op == 'int':
                return float(int(self.T(a.args[0])))
            if op == 'rint':
                return float(round(self.T(a.args[0])))
            if op == 'sign':
                x = self.T(a.args[0])
                return float((x > 0) - (x < 0))
            if op == 'atan2':
                return math.atan2(self.T(a.args[0]), self.T(a.args[1]))
            if op == 'mod':
                return self.T(a.args[0]) % self.T(a.args[1])
            if op == 'cfmod':
                return math.fmod(self.T(a.args[0]), self.T(a.args[1]))
            if op == 'pow':
                return float(self.T(a.args[0])) ** self.T(a.args[1])
            if op == 'ite':
                return self.T(a.args[1]) if self.B(a.args[0]) else self.T(a.args[2])
            if op == 'b2i':
                return 1.0 if self.B(a.args[0]) else 0.0
            if op == 'lsolve':
                key = ('lsolve', a.args[1], a.args[2])
                if key not in self.val or self.bound:
                    import numpy as np
                    M = np.array([self.T(x) for x in a.args[1]]).reshape(len(a.args[2]), -1)
                    b = np.array([self.T(x) for x in a.args[2]])
                    if np.linalg.cond(M) > 1e9:
                        raise Undef
                    self.val[key] = np.linalg.solve(M, b)
                return float(self.val[key][int(a.args[0].const())])
            if op in ('eighval', 'eighvec', 'eigval', 'eigvec', 'svdval', 'svdu', 'svdv'):
                return self._decomp(op, a)
            if op == 'rd':
                if not self.inst:
                    raise Undef
                return a.args[0].read(self, a.args[1], a.args[2])
            if self.inst and op in ('sum', 'supr') and isinstance(a.args[0], Atom):
                i, n, g = a.args
                old = self.bound.get(i)
                vs = []
                for v in range(self.integer(n)):
                    self.bound[i] = float(v)
                    vs.append(self.T(g))
                self.bound.pop(i, None)
                if old is not None:
                    self.bound[i] = old
                return sum(vs) if op == 'sum' else max(vs) if vs else -1e30
            if op == 'sum':
                i, n, g = a.args
                old = self.bound.get(i)
                s = 0.0
                if abs(self.T(n)) < 1e-9:
                    return 0.0
                for v in (0.37, 1.41, 2.83):
                    self.bound[i] = v
                    s += self.T(g)
                if old is None:
                    del self.bound[i]
                else:
                    self.bound[i] = old
                return s + 0.1 * self.T(n)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef
        # uninterpreted: a smooth pseudo-random function of the numeric arguments
        nums, keys = [], [op]
        for x in a.args:
            self._flat(x, nums, keys)
        r = _h(self.seed if not self.grid else 'g%s' % self.seed, 'f', tuple(keys))
        if op == 'len':
            # lengths are not negative, and are zero every now and then
            r = _h(self.seed, 'len', tuple(keys), tuple(round(n, 5) for n in nums))
            return float(r.choice([0, 1, 2, 3])) if self.grid else r.uniform(0.3, 1.9)
        if not nums:
            return self.basic(a)
        s = r.uniform(0, 6)
        for n in nums:
            s += n * r.uniform(0.5, 1.7)
        return 1.1 * math.sin(s) + 0.2 * math.sin(3.1 * s + 1)

    def _decomp(self, op, a):
        """eigen and singular value decompositions mean themselves"""
        import numpy as np
        k = 2 if op in ('eighvec', 'eigvec', 'svdu', 'svdv') else 1
        ent = a.args[k:]
        key = (op[:4] if op[:4] == 'eigh' else op[:3], ent)
        if key not in self.val or self.bound:
            n = int(round(len(ent) ** .5))
            M = np.array([self.T(x) for x in ent]).reshape(n, n)
            if op[:4] == 'eigh':
                r = np.linalg.eigh(M)
                w = r[0]
            elif op[:3] == 'eig':
                r = np.linalg.eig(M)
                if np.abs(np.imag(r[0])).max() > 1e-9:
                    raise Undef
                r = tuple(np.real(x) for x in r)
                w = np.sort(r[0])
            else:
                u, w, v = np.linalg.svd(M)
                r = (w, u, v)
                w = w[::-1]
            if n > 1 and np.diff(w).min() < 1e-3 * (1 + np.abs(w).max()):
                raise Undef     # vectors of a repeated value are not determined
            self.val[key] = r
        r = self.val[key]
        i = int(lift(a.args[0]).const())
        if k == 1:
            return float(r[0][i])
        j = int(lift(a.args[1]).const())
        return float((r[2] if op == 'svdv' else r[1])[i, j])

    def _flat(self, x, nums, keys):
        if isinstance(x, T):
            nums.append(self.T(x))
            keys.append('#')
        elif isinstance(x, B):
            keys.append(self.B(x))
        elif isinstance(x, Atom):
            nums.append(self.atom(x))
            keys.append('#')
        elif isinstance(x, tuple):
            if x and x[0] == 'choice':
                # the key of a value chosen by guards is the key of the chosen value
                for g, k in x[1:]:
                    if not isinstance(g, B) or self.B(g):
                        return self._flat(k, nums, keys)
            keys.append('(')
            for y in x:
                self._flat(y, nums, keys)
            keys.append(')')
        else:
            keys.append(repr(x))

    def T(self, t):
        s = 0.0
        for mono, c in t.m.items():
            p = float(c)
            for a, e in mono:
                v = self.atom(a)
                if e < 0 and abs(v) < 1e-9:
                    raise Undef
                p *= v ** e
            s += p
        return s

    def B(self, b):
        while b.v is not None:
            b = b.hi if self.pred(b.v) else b.lo
        return b is TRUE

    def pred(self, a):
        self.touched.add(a)
        if a in self.bval:
            return self.bval[a]
        for hk in self.hooks:
            v = hk(self, a)
            if v is not None:
                return bool(v)
        if a.op == 'lt0':
            r = self.T(a.args[0]) < -1e-10
        elif a.op == 'eq0':
            r = abs(self.T(a.args[0])) < 1e-9
        elif a.op == 'keyeq':
            fl = []
            for x in a.args:
                nums, keys = [], []
                self._flat(x, nums, keys)
                fl.append((tuple(keys), tuple(round(n, 5) for n in nums)))
            r = fl[0] == fl[1] or _h(self.seed, 'k', *sorted(fl)).random() < 0.5
        else:
            nums, keys = [], [a.op]
            for x in a.args:
                self._flat(x, nums, keys)
            r = _h(self.seed, 'p', tuple(keys), tuple(round(n, 5) for n in nums)).random() < 0.5
        if not (set(self.bound) & atom_atoms(a)):
            self.bval[a] = r
        return r


UNKNOWN_OPS = ('unk',)


def unknowns(*ts):
    r = set()
    for t in ts:
        for a in deep_atoms(t):
            if a.op in UNKNOWN_OPS:
                r.add(a)
    return r


class Verdict:
    """equal: True / False / None (not decided)"""
    __slots__ = ('equal', 'how', 'detail')

    def __init__(self, equal, how, detail=''):
        self.equal, self.how, self.detail = equal, how, detail


def clear_denominators(t):
    """multiply away inv() atoms and negative exponents (value is zero iff the result is)"""
    for _ in range(12):
        invs = {}
        neg = {}
        for mono in t.m:
            for a, e in mono:
                if a.op == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not invs and not neg:
            return t
        if neg:
            f = mk({tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda p: p[0].id)): 1})
            t = t * f
            continue
        a, e = sorted(invs.items(), key=lambda p: -p[0].id)[0]
        p = a.args[0]
        out = ZERO
        for mono, c in t.m.items():
            ee = 0
            rest = []
            for b, f in mono:
                if b is a:
                    ee = f
                else:
                    rest.append((b, f))
            out = out + mk({tuple(rest): c}) * power(p, e - ee)
        t = out
    return t


def reduce_rel(t, rels):
    """rels: list of (Atom, T): atom^2 -> T ; plus cos^2 -> 1 - sin^2"""
    rel = dict(rels)
    for _ in range(30):
        changed = False
        out = ZERO
        for mono, c in t.m.items():
            f = lift(c)
            for a, e in mono:
                if a in rel and e >= 2:
                    f = f * power(rel[a], e // 2) * power(lift(a), e % 2)
                    changed = True
                elif a.op == 'cos' and e >= 2:
                    s = fun('sin', a.args[0])
                    f = f * power(ONE - s * s, e // 2) * power(lift(a), e % 2)
                    changed = True
                else:
                    f = f * mk({((a, e),): 1})
            out = out + f
        t = out
        if not changed:
            return t
    return t


def thresholds(*ts):
    """the values at which conditions on one symbol change: {symbol: [values]}"""
    out = {}
    for t in ts:
        for p in deep_atoms(t):
            if p.op in ('lt0', 'eq0') and isinstance(p.args[0], T) and len(p.args[0].m) == 2:
                m = p.args[0].m
                k = [x for x in m if x]
                if len(k) == 1 and len(k[0]) == 1 and k[0][0][1] == 1 and k[0][0][0].op == 'sym':
                    c = -float(m[()]) / float(m[k[0]])
                    if abs(c) < 1e6:
                        out.setdefault(k[0][0][0], set()).add(c)
    return {a: sorted(v) for a, v in out.items()}


def equal(a, b, rels=(), hooks=None, samples=14, care=TRUE, ties=4, soft=None):
    if a is b:
        return Verdict(True, 'normal form')
    d = a - b
    try:
        z = reduce_rel(clear_denominators(d), rels) if len(d.m) < 400 else d
        if z is ZERO:
            return Verdict(True, 'normal form')
    except RecursionError:
        pass
    n = 0
    ways = {}
    unk = sft = open_ = crit = None
    rare = [0, 0]
    small = ties == 2 and len(deep_atoms(a) | deep_atoms(b)) < 120
    for seed in range(samples * (16 if small else 8)):
        s = Sample(seed, grid=(seed % ties == ties - 1), hooks=hooks)
        if ties == 2 and s.grid:
            if crit is None:
                crit = thresholds(a, b)
            s.crit = crit
        try:
            if care is not TRUE and not s.B(care):
                continue
            x, y = s.T(a), s.T(b)
        except Undef:
            continue
        except OverflowError:
            continue
        if x != x or y != y:
            continue
        n += 1
        if ties == 2:
            rare[x > .5] += 1
        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            # values the analysis does not model decide nothing, where they matter
            if unk is None:
                unk, sft = unknowns(a, b), soft(a, b) if soft else set()
            u = unk & s.touched
            if u:
                open_ = open_ or Verdict(None, 'contains unmodelled values', ', '.join(sorted(show(q) for q in u))[:400])
                continue
            u = sft & s.touched
            if u:
                open_ = open_ or Verdict(None, 'depends on values the analysis does not model:', ', '.join(sorted(show(q) for q in u)[:3])[:300])
                continue
            return Verdict(False, 'random interpretation', 'value numbers differ: %s  vs  %s' % (show(a), show(b)))
        for p, v in s.bval.items():
            ways[p] = ways.get(p, 0) | (2 if v else 1)
        # go on while some condition was only seen one way, or hardly ever holds (fails)
        if small and min(rare) < 12 and n < 10 * samples:
            continue
        if n >= samples and (n >= 3 * samples or all(w == 3 for w in ways.values())):
            break
    if open_:
        return open_
    if n < 4:
        return Verdict(None, 'no admissible interpretation found (%d)' % n, '%s vs %s' % (show(a), show(b)))
    return Verdict(True, 'random interpretation')
