"""Abstract values of the gated value-graph interpreter."""
import numpy as np
from . import term as tm
from .term import T, B


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Arr:
    """array of known shape; `pos` are positions in the buffer heap[oid] (views share the buffer)"""
    __slots__ = ('oid', 'pos')

    def __init__(self, oid, pos):
        self.oid, self.pos = oid, pos

    @property
    def shape(self):
        return self.pos.shape

    def __repr__(self):
        return 'Arr%s@%s' % (self.pos.shape, self.oid)


class View:
    """known-shape window on an array of symbolic extent; pos holds index tuples"""
    __slots__ = ('oid', 'pos')

    def __init__(self, oid, pos):
        self.oid, self.pos = oid, pos

    @property
    def shape(self):
        return self.pos.shape

    def __repr__(self):
        return 'View%s@%s' % (self.pos.shape, self.oid)


class SArr:
    """array with at least one symbolic extent.  imap maps a view index to a buffer index."""
    __slots__ = ('oid', 'shape', 'imap')

    def __init__(self, oid, shape, imap=None):
        self.oid, self.shape, self.imap = oid, tuple(shape), imap

    def __repr__(self):
        return 'SArr%r@%s' % (self.shape, self.oid)


class Store:
    __slots__ = ('quants', 'guard', 'pattern', 'value', 'loc', 'add')

    def __init__(self, quants, guard, pattern, value, loc=None, add=False):
        # pattern: tuple of T or None (= whole axis); value: T or callable(idx)->T; add: the value is added to what is there
        self.quants, self.guard, self.pattern, self.value, self.loc, self.add = quants, guard, pattern, value, loc, add


class SContent:
    """contents of a symbolic array: base select function + stores"""
    __slots__ = ('base', 'stores', 'bkey')

    def __init__(self, base, stores=(), bkey=None):
        self.base, self.stores, self.bkey = base, tuple(stores), bkey

    def add(self, s):
        return SContent(self.base, self.stores + (s,), self.bkey)


class Lst:
    __slots__ = ('oid', 'kind')

    def __init__(self, oid, kind='list'):
        self.oid, self.kind = oid, kind


class Dct:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


# segments of list / dict contents
class Seg:
    """kind 'e': one element present under guard; 's': elements for index k in [0,n)"""
    __slots__ = ('kind', 'guard', 'value', 'k', 'n', 'key', 'loc', 'grp')

    def __init__(self, kind, guard, value, k=None, n=None, key=None, loc=None, grp=None):
        self.kind, self.guard, self.value, self.k, self.n, self.key, self.loc = kind, guard, value, k, n, key, loc
        # (token, size): one of several elements each round of a loop appends
        self.grp = grp


class LContent:
    """list/dict/set contents; base: None or Coll (symbolic members first); segs: tuple(Seg);
    stores: tuple of (quants, guard, index T, value)"""
    __slots__ = ('base', 'segs', 'stores')

    def __init__(self, base=None, segs=(), stores=()):
        self.base, self.segs, self.stores = base, tuple(segs), tuple(stores)


class Coll:
    """a symbolic collection named `name` with elements described by spec"""
    __slots__ = ('name', 'spec', 'n')

    def __init__(self, name, spec, n=None):
        self.name, self.spec = name, spec
        self.n = n if n is not None else tm.app('len', name)


class Obj:
    __slots__ = ('oid', 'cls', 'lazy')

    def __init__(self, oid, cls, lazy=None):
        self.oid, self.cls, self.lazy = oid, cls, lazy

    def __repr__(self):
        return '<%s %s>' % (self.cls.name if self.cls else '?', self.oid)


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module

    def __repr__(self):
        return '<class %s>' % self.name


class Fn:
    __slots__ = ('node', 'module', 'qual', 'cls', 'closure', 'kind', 'defaults')

    def __init__(self, node, module, qual, cls=None, closure=None, kind=''):
        self.node, self.module, self.qual, self.cls, self.closure, self.kind = node, module, qual, cls, closure, kind
        self.defaults = None

    def __repr__(self):
        return '<fn %s>' % self.qual


class Bound:
    __slots__ = ('obj', 'fn')

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class BoundExt:
    """method `name` of a modelled value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext:
    """external name, e.g. numpy.linalg.norm"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path


class Native:
    """a callable supplied by a rule: f(interp, state, args, kwargs)"""
    __slots__ = ('f', 'name')

    def __init__(self, f, name='native'):
        self.f, self.name = f, name


class NObj:
    """an object whose methods are supplied by a rule; truth: condition it stands for in a test"""
    __slots__ = ('attrs', 'truth', 'name')

    def __init__(self, name, attrs, truth=tm.TRUE):
        self.name, self.attrs, self.truth = name, attrs, truth


class Opq:
    """opaque value with structural key"""
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty=None):
        self.key, self.ty = key, ty

    def __repr__(self):
        return ('Opq(%s)' % (self.key,))[:200]


class Choice:
    """gated union: list of (guard, value), guards disjoint"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Rng:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Slc:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Mat:
    """sparse / linear operator value"""
    __slots__ = ('kind', 'args', 'shape', 'ident')

    def __init__(self, kind, args, shape=None):
        self.kind, self.args, self.shape, self.ident = kind, args, shape, None


class It:
    """lazy iterable: list of segments ('c', guard, value) / ('s', n, elem(i), guard(i))"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs


class Partial:
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def fork(self, pc=None):
        return State(dict(self.env), dict(self.heap), self.pc if pc is None else pc)

    def become(self, o):
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


class Event:
    __slots__ = ('kind', 'guard', 'loops', 'loc', 'data', 'fn')

    def __init__(self, kind, guard, loops, loc, data, fn):
        self.kind, self.guard, self.loops, self.loc, self.data, self.fn = kind, guard, loops, loc, data, fn

    def __repr__(self):
        return 'Event(%s %s @%s if %r)' % (self.kind, self.data, self.loc, self.guard)


class Dead(Exception):
    """control does not continue"""


class Unsupported(Exception):
    pass
