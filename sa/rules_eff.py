"""Effects: what computations do to their arguments, and storage shared across the programming interface."""
import contextlib

from . import ctx
from .lib import *
from .check import Rule
from .values import *

PURE_MODULES = ('rainbow.math.', 'rainbow.geometry.', 'rainbow.simulators.prox_soft_bodies.mechanics.', 'rainbow.simulators.prox_rigid_bodies.mass.',
                'rainbow.simulators.prox_rigid_bodies.prox_operators.', 'rainbow.simulators.proximal_contact.proximal_operators.',
                'rainbow.simulators.prox_soft_bodies.solver.Native.', 'rainbow.simulators.prox_soft_bodies.solver.ElementArrayUtil.',
                'rainbow.simulators.prox_soft_bodies.solver.get_', 'rainbow.simulators.proximal_contact.blocking.')
# functions documented to work in place, and what they work on
IN_PLACE = {SMQ + n for SMQ in ('rainbow.geometry.surface_mesh.',) for n in ('translate', 'rotate', 'scale', 'scale_to_unit', 'axis_sort')}
IN_PLACE |= {'rainbow.geometry.grid3.eval_on_grid', 'rainbow.geometry.kdop_bvh.refit_sub_tree', 'rainbow.geometry.kdop_bvh.update_bvh', 'rainbow.geometry.kdop_bvh.refit'}
# a coordinate system is the pair of arrays it is made from
IN_PLACE |= {'rainbow.simulators.prox_soft_bodies.solver.Native.apply_dirichlet_conditions'}
KEEPS = {'rainbow.math.coordsys.make'}
API_MODULES = ('rainbow.simulators.prox_rigid_bodies.api.', 'rainbow.simulators.prox_soft_bodies.api.', 'rainbow.simulators.inverse_kinematics.api.')
PURE_NAMES = ('get_', 'compute_gradient', 'compute_jacobian', 'compute_hessian', 'compute_objective', 'is_')


def is_array(v):
    return isinstance(v, (Arr, View, SArr))


def walk(v, seen, out, ip, st, depth=0):
    """storage of all arrays reachable from a value"""
    if is_array(v):
        out.add(v.oid)
        if v.oid in seen:
            return
        seen.add(v.oid)
        return
    if isinstance(v, (tuple, list, set, frozenset)):
        for x in v:
            walk(x, seen, out, ip, st, depth + 1)
        return
    if isinstance(v, dict):
        for x in v.values():
            walk(x, seen, out, ip, st, depth + 1)
        return
    if isinstance(v, Choice):
        for g, x in v.alts:
            walk(x, seen, out, ip, st, depth + 1)
        return
    if isinstance(v, NObj):
        walk(v.attrs, seen, out, ip, st, depth + 1)
        return
    if isinstance(v, (Lst, Dct, Obj)):
        if v.oid in seen:
            return
        seen.add(v.oid)
        c = st.heap.get(v.oid)
        if c is None:
            c = ip.const_heap.get(v.oid)
        if c is not None:
            held(c, seen, out, ip, st)


def held(c, seen, out, ip, st):
    if isinstance(c, dict):
        for x in c.values():
            walk(x, seen, out, ip, st)
    elif isinstance(c, LContent):
        for s in c.segs:
            walk(s.value, seen, out, ip, st)
        for s in c.stores:
            walk(s[-1], seen, out, ip, st)


def refs(ip, st):
    """storage of arrays held by objects and collections"""
    out = set()
    for c in list(st.heap.values()):
        if isinstance(c, (dict, LContent)):
            held(c, set(), out, ip, st)
    return out


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Arr, View)):
        return a.oid == b.oid and np.array_equal(a.pos, b.pos)
    if isinstance(a, (SArr, Lst, Dct, Obj)):
        return a.oid == b.oid
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Opq):
        return a.key == b.key
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(g is h and same_value(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    try:
        return bool(a == b)
    except Exception:
        return False


def same_content(a, b):
    """None: not known"""
    if a is b:
        return True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        bad = [(x, y) for x, y in zip(a.ravel(), b.ravel()) if not (x is y or x == y)]
        if not bad:
            return True
        for x, y in bad:
            v = tm.equal(x, y, samples=8) if isinstance(x, T) and isinstance(y, T) else None
            if v is None or v.equal is None:
                return None
            if v.equal is False:
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in b and same_value(a[k], b[k]) for k in a)
    if isinstance(a, LContent) and isinstance(b, LContent):
        return a.base is b.base and len(a.segs) == len(b.segs) and len(a.stores) == len(b.stores) and all(
            x is y or (x.kind == y.kind and x.guard is y.guard and same_value(x.value, y.value)) for x, y in zip(a.segs, b.segs)) and all(x is y for x, y in zip(a.stores, b.stores))
    if isinstance(a, SContent) and isinstance(b, SContent):
        return a.base is b.base and len(a.stores) == len(b.stores) and all(x is y for x, y in zip(a.stores, b.stores))
    return False


class Quiet(Rule):
    """runs the scenarios of other rules for their calls only"""

    def add(self, name, status, where, detail='', how=''):
        return status == 'ok'

    def eq(self, *a, **k):
        return True

    holds = le = eq


class Watch:
    def __init__(self, r):
        self.r, self.depth, self.n, self.seen = r, 0, {}, {}

    def quals(self, W, f, args):
        if isinstance(f, str):
            return f
        return getattr(f, 'qual', None)

    def name(self, q):
        return '.'.join(q.split('.')[-2:])

    def around(self, W, q, f, args, kw, go):
        r, ip = self.r, W.ip
        st0 = dict(W.st.heap)
        pure = q.startswith(PURE_MODULES) and q not in IN_PLACE
        api = q.startswith(API_MODULES)
        if not pure and not api:
            return go()
        if api and q.rsplit('.', 1)[1].startswith(PURE_NAMES):
            pure = True
        given = list(args) + list(kw.values())
        mine = set()
        for a in given:
            if is_array(a):
                mine.add(a.oid)
            elif isinstance(a, (Lst, tuple)):
                walk(a, set(), mine, ip, W.st)
        old = refs(ip, W.st)
        const0 = dict(ip.const_heap)
        out = go()
        heap = W.st.heap
        where = f if hasattr(f, 'node') else W.fn(q)
        nm = self.name(q)

        def was(o):
            return st0.get(o, const0.get(o, ip.lazy_base.get(o)))
        changed = unknown = False
        for o, c in heap.items():
            b = was(o)
            if b is None or b is c:
                continue
            if pure or o in mine:
                x = same_content(b, c)
                if x is False:
                    changed = o
                elif x is None:
                    unknown = True
        self.say('%s leaves %s alone' % (nm, 'everything it is given' if pure else 'the arrays it is given'), changed is False, where, 'changes %s' % ('an argument' if changed in mine else 'existing state'), unknown)
        reach = set()
        walk(out, set(), reach, ip, W.st)
        for o, c in heap.items():
            if o in st0 and isinstance(c, (dict, LContent)):
                held(c, set(), reach, ip, W.st)
        top = {out.oid} if is_array(out) else {x.oid for x in out if is_array(x)} if isinstance(out, tuple) else set()
        new = set() if q in KEEPS else reach - old - top
        self.say('%s does not keep the arrays it is given' % nm, not (mine & new), where, 'the result or the engine shares storage with an array of the caller')
        res = set()
        if is_array(out):
            res.add(out.oid)
        elif isinstance(out, tuple):
            for x in out:
                if is_array(x):
                    res.add(x.oid)
        if res:
            held_ = set()
            for o, c in heap.items():
                if o in st0 and isinstance(c, (dict, LContent)):
                    held(c, set(), held_, ip, W.st)
            held_ |= {o for o in res if o not in st0 and (o in ip.lazy_base or o in ip.const_heap)}
            self.say('%s returns arrays of its own' % nm, not (res & (mine | held_)), where, 'the result shares storage with %s' % ('an argument' if res & mine else 'existing state'))
        return out

    def say(self, name, ok, where, detail, unknown=False):
        k = (name, ok, unknown)
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.seen[k] > 3:
            return
        if ok and unknown:
            return
        self.r.fact(name + (' (call %d)' % self.seen[k]), ok, where, detail, how='storage of the abstract heap')


@contextlib.contextmanager
def watching(w):
    o_call, o_meth, o_new = ctx.World.call, ctx.World.meth, ctx.World.new

    def call(self, f, *args, **kw):
        q = w.quals(self, f, args)
        if q is None:
            return o_call(self, f, *args, **kw)
        return w.around(self, q, f if not isinstance(f, str) else self.fn(f), args, kw, lambda: o_call(self, f, *args, **kw))
    ctx.World.call = call
    try:
        yield
    finally:
        ctx.World.call, ctx.World.meth, ctx.World.new = o_call, o_meth, o_new


def E01(r):
    """computations leave their arguments alone; the interface copies arrays in and out"""
    from . import rules_math as m, rules_math2 as m2, rules_geom as g, rules_geom2 as g2, rules_misc as misc, rules_soft as s, rules_soft2 as s2, rules_rigid as rr, rules_rigid2 as r2, rules_rigid4 as r4, rules_ik as ik, rules_prox as px
    w = Watch(r)
    with watching(w):
        for fn in (m.M01, m.M02, m.M03, m.M04, m.M05, m.M06, m2.M07, m2.M08, g.G02, g.G03, g.G04, misc.G05, g2.G06, s.S01, s.S02, s.S03, s2.S07, s2.S08, s2.S09, r2.R16, r2.R10, r2.R11, r4.R17, ik.K01, ik.K02, px.P01, px.P02, px.P03):
            q = Quiet(r.pid, 'quick', r.seed)
            q.samples = 4
            fn(q)
            r.worlds += q.worlds
