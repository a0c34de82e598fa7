"""Symbolic worlds: the data model over which the entry points are interpreted."""
from . import term as tm
from .load import Program, AnalysisBroken
from .interp import Interp
from .values import *

RT = 'rainbow.simulators.prox_rigid_bodies.types'
SR = 'rainbow.simulators.prox_rigid_bodies.'

RIGID_SCHEMA = {
    ('Engine', 'simulator_type'): 's',
    ('Engine', 'bodies'): ('coll', 'dict', 'bodies', ('obj', RT + '.RigidBody')),
    ('Engine', 'forces'): ('coll', 'dict', 'eforces', ('oneof', [('obj', RT + '.Gravity'), ('obj', RT + '.Damping')])),
    ('Engine', 'shapes'): ('coll', 'dict', 'shapes', ('obj', RT + '.Shape')),
    ('Engine', 'hinges'): ('coll', 'dict', 'hinges', ('obj', RT + '.Hinge')),
    ('Engine', 'contact_points'): ('coll', 'list', 'contacts', ('obj', RT + '.ContactPoint')),
    ('Engine', 'surfaces_interactions'): ('obj', RT + '.SurfacesInteractionLibrary'),
    ('Engine', 'params'): ('obj', RT + '.Parameters'),
    ('Engine', 'stepper'): ('obj', SR + 'steppers.SemiImplicitStepper'),
    ('RigidBody', 'name'): 's', ('RigidBody', 'idx'): 'selfidx',
    ('RigidBody', 'q'): 'q4', ('RigidBody', 'r'): 'v3', ('RigidBody', 'v'): 'v3', ('RigidBody', 'w'): 'v3',
    ('RigidBody', 'mass'): 'f', ('RigidBody', 'inertia'): 'v3', ('RigidBody', 'is_fixed'): 'b',
    ('RigidBody', 'forces'): ('coll', 'list', None, ('oneof', [('obj', RT + '.Gravity'), ('obj', RT + '.Damping')])),
    ('RigidBody', 'material'): 's', ('RigidBody', 'bvh'): 'opq',
    ('RigidBody', 'shape'): ('obj', RT + '.Shape'),
    ('Shape', 'name'): 's', ('Shape', 'mass'): 'f', ('Shape', 'inertia'): 'v3', ('Shape', 'r'): 'v3', ('Shape', 'q'): 'q4',
    ('Shape', 'mesh'): 'opq', ('Shape', 'grid'): 'opq',
    ('Gravity', 'g'): 'f', ('Gravity', 'up'): 'v3',
    ('Damping', 'alpha'): 'f', ('Damping', 'beta'): 'f',
    ('ContactPoint', 'bodyA'): ('member', 'bodies', RT + '.RigidBody'),
    ('ContactPoint', 'bodyB'): ('member', 'bodies', RT + '.RigidBody'),
    ('ContactPoint', 'p'): 'v3', ('ContactPoint', 'n'): 'v3', ('ContactPoint', 'g'): 'f',
    ('Hinge', 'name'): 's', ('Hinge', 'idx'): 'selfidx',
    ('Hinge', 'parent'): ('member', 'bodies', RT + '.RigidBody'),
    ('Hinge', 'child'): ('member', 'bodies', RT + '.RigidBody'),
    ('Hinge', 'arm_p'): 'v3', ('Hinge', 'arm_c'): 'v3', ('Hinge', 'axis_p'): 'v3', ('Hinge', 'axis_c'): 'v3',
    ('Hinge', 'socket_p'): 'opq', ('Hinge', 'socket_c'): 'opq',
    ('SurfacesInteraction', 'mu'): 'v3', ('SurfacesInteraction', 'epsilon'): 'f',
    ('SurfacesInteractionLibrary', 'storage'): ('coll', 'dict', 'interactions', ('obj', RT + '.SurfacesInteraction')),
    ('SemiImplicitStepper', 'log'): ('coll', 'list', 'steplog', 'opq'),
}


class Gone:
    """a function the current source no longer has"""

    def __init__(self, qual):
        self.qual = qual

    def __str__(self):
        return self.qual


class World:
    def __init__(self, schema=None, opaque=None, models=None, prog=None):
        self.prog = prog or Program()
        self.ip = Interp(self.prog, schema or RIGID_SCHEMA, models, opaque)
        self.st = State({}, {}, tm.TRUE)

    def fn(self, q):
        """function / method by qualified name; a placeholder whose use is undecided when it is gone"""
        ip = self.ip
        mod, name = q.rsplit('.', 1)
        if mod in self.prog.modules:
            v = ip.global_name(self.prog.modules[mod], name, self.st) if self._has(mod, name) else None
            if v is None:
                return Gone(q)
            return v
        try:
            m = ip.find_method(ip.find_class(mod), name)
        except AnalysisBroken:
            m = None
        if m is None:
            return Gone(q)
        return m

    def _has(self, mod, name):
        try:
            self.ip.global_name(self.prog.modules[mod], name, self.st)
            return True
        except Unsupported:
            return False

    def new(self, q, *args, **kw):
        return self.ip.call(self.ip.find_class(q), list(args), kw, self.st)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        if isinstance(f, Gone):
            raise Unsupported('%s is gone' % f.qual)
        return self.ip.call(f, list(args), kw, self.st)

    def meth(self, o, name, *args, **kw):
        return self.ip.call(self.ip.getattr(o, name, self.st), list(args), kw, self.st)

    def dct(self):
        o = self.ip.lst([], self.st)
        return Dct(o.oid)

    def get(self, o, name):
        return self.ip.getattr(o, name, self.st)

    def root(self, clsq, name):
        return self.ip.sym_obj(clsq, ('root', name), self.st)

    def engine(self):
        return self.root(RT + '.Engine', 'engine')


def V(name, n):
    import numpy as np
    c = np.empty(n, dtype=object)
    for ix in np.ndindex(*(n if isinstance(n, tuple) else (n,))):
        c[ix] = tm.sym('%s%s' % (name, list(ix)))
    return c
