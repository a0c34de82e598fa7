"""Procedural scenes of the rigid body simulator, and the files scenes are read from and written to."""
import itertools
from fractions import Fraction

from .lib import *
from .rules_rigid2 import API
from .rules_soft import zeros

SC = SR + 'scenes.'
MS = 'rainbow.geometry.surface_mesh.'
MASS = SR + 'mass.'
TETRA = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]


def frac(a, b=1):
    return lift(Fraction(a, b))


class SceneWorld:
    """an engine on which the real scripting interface is interpreted; names are fresh, mass properties and body frames are
    arbitrary (one generic frame per shape), grids and bounding volumes are tokens"""

    def __init__(self, r, centred=False):
        self.r = r
        self.centred = centred      # shapes with their centre of mass at the model origin
        self.W = W = world(r)
        self.n = 0
        self.named = []
        self.meshes = {}
        self.shape_ids = 0
        self.rands = 0
        self.nq = 0
        self.files = []
        m = W.ip.models
        m[API + 'generate_unique_name'] = self.unique
        m[API + 'FUNC.direction_of_most_variance'] = None
        m['rainbow.math.functions.direction_of_most_variance'] = lambda ip, st, a, kw: ip.arr(arr([1, 0, 0]), st)
        m[MS + 'axis_sort'] = lambda ip, st, a, kw: None
        m[MASS + 'compute_mass_properties'] = lambda ip, st, a, kw: NObj('mass properties', {})
        m[MASS + 'xform_model_2_body_space'] = self.frame
        m['rainbow.geometry.grid3.create_signed_distance'] = lambda ip, st, a, kw: NObj('grid', {})
        m['rainbow.geometry.kdop_bvh.make_bvh'] = lambda ip, st, a, kw: NObj('bvh', {})
        m['igl.read_triangle_mesh'] = self.read_mesh
        m['rainbow.math.quaternion.rand'] = self.randq
        m['rainbow.math.vector3.rand'] = self.randv
        m[MS + 'create_convex_hull'] = self.hull
        W.ip.models = {k: v for k, v in m.items() if v is not None}
        self.E = W.new(RT + '.Engine')
        W.call(API + 'create_surfaces_interaction', self.E, 'stone', 'default', lift(0), A(W, [1, 1, 1]))
        # something that was there before
        W.call(API + 'create_shape', self.E, 'old shape', W.new(MS + 'Mesh', A(W, V('old', (4, 3))), A(W, TETRA)))
        W.call(API + 'create_rigid_body', self.E, 'old body')
        W.call(API + 'connect_shape', self.E, 'old body', 'old shape')
        self.old = self.snapshot('old body')
        self.frames = {}

    def unique(self, ip, st, a, kw):
        nm = a[0] if a else kw['name']
        self.n += 1
        s = '%s #%d' % (nm if isinstance(nm, str) else 'name', self.n)
        self.named.append(s)
        return s

    def frame(self, ip, st, a, kw):
        k = self.shape_ids = self.shape_ids + 1
        q = [frac(x, 5) for x in [(1, 2, 2, 4), (2, 4, -1, 2), (4, -2, 2, 1), (2, 1, 4, -2)][k % 4]]
        r = [frac(k % 3 + 1, 7), frac(-(k % 5) - 1, 11), frac(k % 4 + 1, 13)]
        if self.centred:
            r = zeros(3)
        return (ip.arr(arr(r), st), ip.arr(arr(q), st), tm.sym('unit mass %d' % k),
                ip.arr(V('unit inertia %d' % k, 3), st))

    def read_mesh(self, ip, st, a, kw):
        f = a[0] if a else kw.get('filename')
        self.files.append(f)
        k = len(self.files)
        return (ip.arr(arr([[frac((3 * i + 5 * j + k) % 7 + i * j, 3) for j in range(3)] for i in range(4)]), st),
                ip.arr(arr(TETRA), st))

    def randq(self, ip, st, a, kw):
        self.nq += 1
        return ip.arr(V('q%d' % self.nq, 4), st)

    def randv(self, ip, st, a, kw):
        self.rands += 1
        k = self.rands
        return ip.arr(arr([frac((7 * k + 3 * j * j + j) % 11 - 5, 6) for j in range(3)]), st)

    def hull(self, ip, st, a, kw):
        """the hull keeps every vertex (the pieces of these scenes are convex)"""
        P = ip.np.n_array([a[0]], {}, st)
        return P, ip.arr(arr(TETRA), st)

    # ------------------------------------------------------------------
    def bodies(self):
        W = self.W
        d = W.get(self.E, 'bodies')
        out = {}
        c = W.ip.content(d.oid, W.st)
        for sg in c.segs:
            if sg.kind != 'e' or not tm.implies(W.st.pc, sg.guard) or not isinstance(sg.key, str):
                raise Unsupported('bodies of unknown number')
            out[sg.key] = sg.value
        return out

    def shapes(self):
        W = self.W
        return {sg.key: sg.value for sg in W.ip.content(W.get(self.E, 'shapes').oid, W.st).segs}

    def hinges(self):
        W = self.W
        return {sg.key: sg.value for sg in W.ip.content(W.get(self.E, 'hinges').oid, W.st).segs}

    def snapshot(self, name):
        W = self.W
        b = self.bodies()[name]
        s = W.get(b, 'shape')
        return {'body': b, 'shape': s, 'material': W.get(b, 'material'), 'fixed': W.get(b, 'is_fixed'),
                'num': [x for f in ('r', 'q', 'v', 'w', 'inertia') for x in cells(W, W.get(b, f)).ravel()] + [lift(W.get(b, 'mass'))]
                + list(cells(W, W.get(W.get(s, 'mesh'), 'V')).ravel())}

    def pose(self, b):
        W = self.W
        return cells(W, W.get(b, 'r')), cells(W, W.get(b, 'q'))

    def model_pose(self, b):
        """the world pose of the frame the geometry was modelled in"""
        W = self.W
        rb, qb = self.pose(b)
        s = W.get(b, 'shape')
        rs, qs = cells(W, W.get(s, 'r')), cells(W, W.get(s, 'q'))
        qm = qmul(qb, qconj(qs))
        return rb - qrot(qm, rs), qm

    def world_vertices(self, b):
        W = self.W
        rb, qb = self.pose(b)
        Vb = cells(W, W.get(W.get(W.get(b, 'shape'), 'mesh'), 'V'))
        return np.array([qrot(qb, v) + rb for v in Vb], dtype=object)

    # ------------------------------------------------------------------ rules shared by the scenes
    def made(self):
        """the bodies made since the engine was set up, in order of creation"""
        return {n: b for n, b in self.bodies().items() if n != 'old body'}

    def names(self, v):
        W = self.W
        out = []
        for x in items(W, v):
            if not isinstance(x, str):
                return None
            out.append(x)
        return out

def care(S):
    return S.W.st.pc


def full_setup(r, S, f, out, rho, fixed, what, returned=True, hooks=()):
    """every new body is completely set up"""
    W = S.W
    new = S.made()
    if not r.fact('%s: bodies are created' % what, bool(new), f, 'no body is created'):
        return
    if returned:
        nm = S.names(out)
        r.fact('%s: exactly the names of the new bodies are returned, each once' % what,
               nm is not None and sorted(nm) == sorted(new), f,
               'the result is not the list of the names of the created bodies: %s' % (
                   'it holds something other than names' if nm is None else
                   'missing %s, extra %s' % (sorted(set(new) - set(nm))[:3], sorted(set(nm) - set(new))[:3]
                                             or [x for x in nm if nm.count(x) > 1][:2])))
    shapes = S.shapes()
    idx = []
    for k, (n, b) in enumerate(new.items()):
        tag = '%s: body %d' % (what, k)
        r.fact(tag + ' is registered under its name', W.get(b, 'name') == n, f, 'the name of the body is not its key')
        idx.append(lift(W.get(b, 'idx')).const())
        sh = W.get(b, 'shape')
        if not r.fact(tag + ' has a shape of the engine', any(W.ip.same(sh, s) for s in shapes.values()), f,
                      '%s has no shape of the engine' % n):
            continue
        r.fact(tag + ' has a bounding volume hierarchy', isinstance(W.get(b, 'bvh'), NObj), f, 'the body was not connected to its shape')
        q = cells(W, W.get(b, 'q'))
        r.eq(tag + ' has a unit orientation', dot(q, q), ONE, f, care=care(S), hooks=list(hooks))
        r.eq(tag + ' mass', W.get(b, 'mass'), W.get(sh, 'mass') * rho, f)
        eqv(r, tag + ' inertia', W, W.get(b, 'inertia'), [x * rho for x in cells(W, W.get(sh, 'inertia'))], f)
        r.fact(tag + ' has the given material', W.get(b, 'material') == 'stone', f, 'material is %s' % (W.get(b, 'material'),))
        want = fixed(k, n) if callable(fixed) else fixed
        r.eq(tag + (' is fixed' if want else ' is free'), W.ip.truth(W.get(b, 'is_fixed'), W.st), TRUE if want else FALSE, f)
        eqv(r, tag + ' is at rest', W, np.concatenate([cells(W, W.get(b, 'v')), cells(W, W.get(b, 'w'))]), [ZERO] * 6, f)
        r.fact(tag + ' has no forces yet', not items(W, W.get(b, 'forces')), f, 'forces are connected')
    r.fact('%s: body indices are distinct' % what, len(set(idx)) == len(idx) and None not in idx, f, 'indices %s' % idx)
    old = S.snapshot('old body') if 'old body' in S.bodies() else None
    r.fact('%s: bodies that were there keep everything' % what, old is not None and all(
        W.ip.same(old[k], S.old[k]) for k in ('body', 'shape')) and old['material'] == S.old['material']
        and all(a is b or tm.equal(a, b).equal is True for a, b in zip(old['num'], S.old['num'])), f,
        'a body or shape that existed before was changed')


def num_at(x, s):
    return np.array([s.T(v if isinstance(v, T) else lift(v)) for v in np.ravel(x)]).reshape(np.shape(x))


def sample(care, hooks, seed=1):
    for k in range(400):
        s = tm.Sample(seed + 97 * k, hooks=hooks)
        try:
            if s.B(care):
                return s
        except (tm.Undef, OverflowError):
            pass
    return None


def same_points(r, name, got, want, where, care=TRUE, hooks=(), both=True):
    """two finite sets of points are the same (the pairing is read off one interpretation and then proved)"""
    s = sample(care, list(hooks))
    if s is None:
        return r.undecided(name, where, 'no admissible interpretation')
    g, w = num_at(got, s), num_at(want, s)
    for i in range(len(w)):
        j = int(np.argmin(((g - w[i]) ** 2).sum(axis=1)))
        for c in range(3):
            r.eq('%s: point %d, coordinate %d' % (name, i, c), got[j][c], want[i][c], where, care=care, hooks=list(hooks))
    if both:
        d = ((g[:, None, :] - w[None, :, :]) ** 2).sum(axis=2).min(axis=1)
        sc = 1e-12 * (1 + np.abs(w).max() ** 2)
        r.fact('%s: no other points' % name, bool((d < sc).all()), where,
               'a vertex lies at %s where none should be' % (np.round(g[int(d.argmax())], 4).tolist(),), how='random interpretation')


POS = ['w', 'h', 'd', 'hp', 'ri', 'th', 'rho', 'a', 'gw', 'gh', 'gd', 'rr']
HK = [pos_hook(*POS), unit_hook('q', *['q%d' % k for k in range(1, 40)]), range_hook('sf', 0.5, 0.95), range_hook('st', 0.1, 0.9)]


def y(n):
    return tm.sym(n)


def placed(S, r0=None, q0=None):
    W = S.W
    return (A(W, V('r', 3)), A(W, V('q', 4))) if r0 is None else (A(W, r0), A(W, q0))


class Sc:
    """a scene: the function, its arguments, and which of its bodies do not move"""

    def __init__(self, name, args, fixed=False, frame=False, returned=True, fn=None):
        self.name, self.args, self.fixed, self.frame, self.returned = name, args, fixed, frame, returned
        self.q = SC + (fn or '%s.%s' % (name, name))

    def run(self, r, at=None, centred=False):
        S = SceneWorld(r, centred)
        W = S.W
        f = W.fn(self.q)
        a = list(placed(S, *(at or (None, None)))) if self.frame else []
        S.out = W.call(f, S.E, *(a + self.args(S)), density=y('rho'), material_name='stone')
        return S, f


def lattice_shapes(S, n=2):
    W = S.W
    out = []
    for k in range(n):
        nm = 'lattice shape %d' % k
        W.call(API + 'create_shape', S.E, nm, W.new(MS + 'Mesh', A(W, V('L%d' % k, (4, 3))), A(W, TETRA)))
        out.append(nm)
    return W.ip.lst(out, W.st)


def named(prefix):
    return lambda k, n: n.startswith(prefix)


SCENES = [
    Sc('create_ground', lambda S: [], True, frame=True, returned=False),
    Sc('create_box_stack', lambda S: [y('w'), y('h'), y('d'), 3]),
    Sc('create_pillar', lambda S: [y('w'), y('h'), y('d'), 3], frame=True),
    Sc('create_arch', lambda S: [y('w'), y('w') / 2 + y('hp'), y('d'), 2, 5], frame=True),
    Sc('create_dome', lambda S: [y('ri') + y('th'), y('ri'), 2, 5], frame=True),
    Sc('create_tower', lambda S: [y('ri') + y('th'), y('ri'), y('h'), 3, 5, FALSE], frame=True),
    Sc('create_tower', lambda S: [y('ri') + y('th'), y('ri'), y('h'), 2, 4, TRUE], frame=True),
    Sc('create_colosseum', lambda S: [y('ri') + y('th'), y('ri'), 20 * y('ri') + y('h'), 2, 3], frame=True),
    Sc('create_pantheon', lambda S: [y('ri') + y('th'), y('ri'), y('ri') + y('th') + y('h'), 2, 4], frame=True),
    Sc('create_temple', lambda S: [4, 7, y('w'), y('h'), y('d'), 1]),
    Sc('create_chainmail', lambda S: [y('ri') + y('th'), y('ri'), 2, 1, y('st')], lambda k, n: k in (0, 2, 3, 5)),
    Sc('create_cube_hinge_chain', lambda S: [y('a'), 3], lambda k, n: k == 0),
    Sc('create_gear_train', lambda S: [3], lambda k, n: n.startswith('ground')),
    Sc('create_lattice', lambda S: [lattice_shapes(S), y('w'), y('h'), y('d'), 2, 3, 2], frame=True),
    Sc('create_jack_lattice', lambda S: [y('w'), y('h'), y('d'), 2, 1, 2], frame=True),
    Sc('create_funnel', lambda S: [y('hp'), y('rr'), y('w'), y('h'), y('d'), 2, 1, 2], lambda k, n: k == 4),
    Sc('create_glasses', lambda S: [y('hp'), y('rr'), y('w'), y('h'), y('d'), 2, 1, 2], lambda k, n: k == 4),
    Sc('create_poles', lambda S: [y('hp'), y('rr'), 2, 2, y('w'), y('h'), y('d'), 2, 1, 2], lambda k, n: k >= 4),
    Sc('create_rock_slide', lambda S: [y('w'), y('h'), y('d'), 2, 1, 2], named('mountains')),
    Sc('create_sandbox', lambda S: [y('w'), y('h'), y('d'), 2, 1, 2], lambda k, n: k >= 4),
]


def R18(r):
    """every scene leaves each of its bodies completely set up"""
    for n, sc in enumerate(SCENES):
        what = sc.name + (' (cubes)' if n == 6 else '')
        with r.section(what, sc.q.split('.')[-1]):
            S, f = sc.run(r)
            full_setup(r, S, f, S.out, y('rho'), sc.fixed, what, sc.returned, HK)


def R19(r):
    """scenes are placed as a whole by the given rigid transform"""
    for n, sc in enumerate(SCENES):
        if not sc.frame:
            continue
        what = sc.name + (' (cubes)' if n == 6 else '')
        with r.section(what, sc.q.split('.')[-1]):
            S, f = sc.run(r)
            S0, _ = sc.run(r, at=(zeros(3), arr([1, 0, 0, 0])))
            a, b = list(S.made().values()), list(S0.made().values())
            if not r.fact('%s: the placement does not change the number of bodies' % what, len(a) == len(b) > 0, f, '%d and %d' % (len(a), len(b))):
                continue
            q, t = V('q', 4), V('r', 3)
            for k, (x, z) in enumerate(zip(a, b)):
                rx, qx = S.pose(x)
                rz, qz = S0.pose(z)
                eqv(r, '%s: body %d stands where the frame carries it' % (what, k), S.W, rx, qrot(q, rz) + t, f, care=care(S), hooks=HK, samples=4)
                eqv(r, '%s: body %d is turned with the frame' % (what, k), S.W, qmat(qx).ravel(), matmul(qmat(q), qmat(qz)).ravel(), f,
                    care=care(S), hooks=HK, samples=4)


# ---------------------------------------------------------------- geometry of the masonry scenes
def ident(name):
    return next(s for s in SCENES if s.name == name).run


ID = (zeros(3), arr([1, 0, 0, 0]))


def corners(xs, ys, zs):
    return [arr([a, b, c]) for a in xs for b in ys for c in zs]


def box_at(c, e):
    return corners(*[(c[i] - e[i] / 2, c[i] + e[i] / 2) for i in range(3)])


def turn_y(t, p):
    c, s = tm.fun('cos', t), tm.fun('sin', t)
    return arr([c * p[0] + s * p[2], p[1], c * p[2] - s * p[0]])


def turn_z(t, p):
    c, s = tm.fun('cos', t), tm.fun('sin', t)
    return arr([c * p[0] - s * p[1], s * p[0] + c * p[1], p[2]])


PI = tm.PI


def stones(S):
    return {n: S.world_vertices(b) for n, b in S.made().items()}


def same_stones(r, what, S, f, got, want, hooks=HK):
    """the bodies are the expected polyhedra, in any order"""
    c = care(S)
    if not r.fact('%s: number of stones' % what, len(got) == len(want), f, '%d stones instead of %d' % (len(got), len(want))):
        return
    s = sample(c, list(hooks))
    if s is None:
        return r.undecided(what, f, 'no admissible interpretation')
    G = [num_at(g, s) for g in got]
    left = set(range(len(G)))
    for k, w in enumerate(want):
        m = num_at(w, s)
        ce = m.mean(axis=0)
        j = min(left, key=lambda i: (((G[i].mean(axis=0) - ce) ** 2).sum(), abs(len(G[i]) - len(m))))
        left.discard(j)
        same_points(r, '%s: stone %d' % (what, k), got[j], w, f, care=c, hooks=hooks)


def extent(P, axis):
    lo = hi = P[0][axis]
    for p in P[1:]:
        lo, hi = tm.fmin(lo, p[axis]), tm.fmax(hi, p[axis])
    return lo, hi


def stack(r, what, S, f, pieces, bottom, top, hooks=HK):
    """the pieces (points of each body) are stacked along y without gap or overlap, from bottom to top"""
    c = care(S)
    s = sample(c, list(hooks))
    if s is None:
        return r.undecided(what, f, 'no admissible interpretation')
    P = sorted(pieces, key=lambda p: num_at(p, s)[:, 1].mean())
    at = bottom
    for k, p in enumerate(P):
        lo, hi = extent(p, 1)
        r.eq('%s: piece %d rests on what is below it' % (what, k), lo, at, f, care=c, hooks=list(hooks))
        at = hi
    r.eq('%s: the top is at the given height' % what, at, top, f, care=c, hooks=list(hooks))
    return P


def face_at(P, level, axis, s, eps=1e-9):
    """the points of a body that lie on the plane axis = level in one interpretation"""
    v = num_at(P, s)
    l = s.T(level)
    return [P[i] for i in range(len(P)) if abs(v[i][axis] - l) < eps * (1 + abs(l))]


def R20(r):
    """masonry: stones meet exactly where they should"""
    w, h, d = y('w'), y('h'), y('d')
    hk = list(HK)
    with r.section('ground', 'create_ground'):
        S, f = ident('create_ground')(r, ID)
        st = list(stones(S).values())
        for k, p in enumerate(st):
            lo, hi = extent(p, 1)
            r.eq('ground: its top is the plane y=0', hi, ZERO, f, hooks=hk)
            for ax in (0, 2):
                lo, hi = extent(p, ax)
                r.eq('ground: centred along axis %d' % ax, lo + hi, ZERO, f, hooks=hk)
    with r.section('box stack', 'create_box_stack'):
        S, f = ident('create_box_stack')(r)
        want = [np.array([turn_y(k * PI / 4, p) for p in box_at([ZERO, (k + frac(1, 2)) * h, ZERO], [w, h, d])], dtype=object) for k in range(3)]
        same_stones(r, 'box stack', S, f, list(stones(S).values()), want)
    with r.section('pillar', 'create_pillar'):
        S, f = ident('create_pillar')(r, ID)
        st = list(stones(S).values())
        c = care(S)
        r.fact('pillar: socle, base, three shaft stones, echinus and abacus', len(st) == 7, f, '%d bodies' % len(st))
        P = stack(r, 'pillar', S, f, st, ZERO, h)
        s = sample(c, hk)
        for k, nm in ((0, 'socle'), (6, 'abacus')):
            for ax, e in ((0, w), (2, d)):
                lo, hi = extent(P[k], ax)
                r.eq('pillar: the %s spans the pillar along axis %d, upper side' % (nm, ax), hi, e / 2, f, care=c, hooks=hk)
                r.eq('pillar: the %s spans the pillar along axis %d, lower side' % (nm, ax), lo, -e / 2, f, care=c, hooks=hk)
        for k in range(1, 5):
            lo, hi = extent(P[k], 1)
            up, dn = face_at(P[k], hi, 1, s), face_at(P[k + 1], hi, 1, s)
            if r.fact('pillar: pieces %d and %d have matching faces' % (k, k + 1), len(up) == len(dn) > 2, f,
                      'faces with %d and %d vertices' % (len(up), len(dn))):
                same_points(r, 'pillar: pieces %d and %d share a face' % (k, k + 1), np.array(dn, dtype=object), np.array(up, dtype=object),
                            f, care=c, hooks=hk)
        for k in range(1, 6):
            for j, p in enumerate(P[k]):
                r.le('pillar: piece %d stays within the width [%d]' % (k, j), p[0] * p[0] + p[2] * p[2], w * w / 4, f, care=c, hooks=hk)
        hts = [extent(P[k], 1) for k in range(2, 5)]
        for k in (1, 2):
            r.eq('pillar: shaft stones have equal height [%d]' % k, hts[k][1] - hts[k][0], hts[0][1] - hts[0][0], f, care=c, hooks=hk)
    with r.section('arch', 'create_arch'):
        S, f = ident('create_arch')(r, ID)
        st = list(stones(S).values())
        c = care(S)
        s = sample(c, hk)
        ht = w / 2 + y('hp')
        pier = y('hp')
        pb = [p for p in st if num_at(p, s)[:, 1].max() < s.T(pier) * (1 + 1e-9)]
        vs = [p for p in st if not any(p is x for x in pb)]
        r.fact('arch: two piers of two stones and five arch stones', len(pb) == 4 and len(vs) == 5, f, '%d and %d' % (len(pb), len(vs)))
        for sg, nm in ((-1, 'left'), (1, 'right')):
            P = [p for p in pb if num_at(p, s)[:, 0].mean() * sg > 0]
            stack(r, 'arch: %s pier' % nm, S, f, P, ZERO, pier)
            for k, p in enumerate(P):
                lo, hi = extent(p, 0)
                r.eq('arch: %s pier ends at the width [%d]' % (nm, k), hi if sg > 0 else lo, sg * w / 2, f, care=c, hooks=hk)
                thick = hi - lo
                lo, hi = extent(p, 2)
                r.eq('arch: %s pier has the depth, front [%d]' % (nm, k), hi, d / 2, f, care=c, hooks=hk)
                r.eq('arch: %s pier has the depth, back [%d]' % (nm, k), lo, -d / 2, f, care=c, hooks=hk)
        lo, hi = extent(pb[0], 0)
        thick = hi - lo
        for k, p in enumerate(pb):
            lo, hi = extent(p, 0)
            r.eq('arch: pier stones are equally thick [%d]' % k, hi - lo, thick, f, care=c, hooks=hk)
        want = []
        for k in range(5):
            want.append(np.array([turn_z(PI * j / 5, [rad, ZERO, z]) + arr([ZERO, pier, ZERO])
                                  for j in (k, k + 1) for rad in (w / 2, w / 2 - thick) for z in (d / 2, -d / 2)], dtype=object))
        same_stones(r, 'arch: half ring on the piers', S, f, vs, want)
    ri, ro = y('ri'), y('ri') + y('th')
    with r.section('dome', 'create_dome'):
        S, f = ident('create_dome')(r, ID)
        want = []
        for l in range(2):
            for k in range(5):
                want.append(np.array([turn_y(2 * PI * t / 5, turn_z(PI / 2 * p / 3, [R, ZERO, ZERO]))
                                      for t in (k, k + 1) for p in (l, l + 1) for R in (ri, ro)], dtype=object))
        same_stones(r, 'dome', S, f, list(stones(S).values()), want)
    for n, (nl, ns, cubes) in ((5, (3, 5, False)), (6, (2, 4, True))):
        what = 'tower of boxes' if cubes else 'tower'
        with r.section(what, 'create_tower'):
            S, f = SCENES[n].run(r, ID)
            want = []
            sf = frac(99, 100)
            t = tm.fun('sin', PI / ns) / tm.fun('cos', PI / ns)
            bh = h / nl
            for l in range(nl):
                for k in range(ns):
                    phi = 2 * PI * k / ns + (PI / ns if l % 2 == 0 else ZERO)
                    want.append(np.array([turn_y(phi, [sx * (ri if cubes else R) * t * sf, (l + u) * bh, -R])
                                          for sx in (-1, 1) for u in (0, 1) for R in (ri, ro)], dtype=object))
            same_stones(r, what, S, f, list(stones(S).values()), want)
    with r.section('safety factor', 'create_tower'):
        S = SceneWorld(r)
        f = S.W.fn(SC + 'create_tower.create_tower')
        a = placed(S, *ID)
        S.W.call(f, S.E, a[0], a[1], ro, ri, h, 1, 4, FALSE, y('rho'), 'stone', y('sf'))
        s = sample(care(S), hk)
        st = list(stones(S).values())
        T1 = ri * y('sf')
        for k in range(4):
            phi = 2 * PI * k / 4 + PI / 4
            w4 = np.array([turn_y(phi, [sx * R * y('sf'), u * h, -R]) for sx in (-1, 1) for u in (0, 1) for R in (ri, ro)], dtype=object)
            G = [num_at(g, s).mean(axis=0) for g in st]
            m = num_at(w4, s).mean(axis=0)
            j = min(range(len(st)), key=lambda i: ((G[i] - m) ** 2).sum())
            same_points(r, 'tower: bricks shrink by the safety factor: brick %d' % k, st[j], w4, f, care=care(S), hooks=hk)
    with r.section('colosseum', 'create_colosseum'):
        S, f = ident('create_colosseum')(r, ID)
        H = 20 * ri + h
        lv = H / 2
        S2 = SceneWorld(r)
        W = S2.W
        sf = frac(99, 100)
        tan = tm.fun('sin', PI / 3) / tm.fun('cos', PI / 3)
        for l in range(2):
            for k in range(3):
                p = turn_y(2 * PI * k / 3, [ZERO, l * lv, -(ri + ro) / 2])
                qy = arr([tm.fun('cos', PI * k / 3), ZERO, tm.fun('sin', PI * k / 3), ZERO])
                W.call(SC + 'create_arch.create_arch', S2.E, A(W, p), A(W, qy), 2 * tan * ri * sf, lv * frac(9, 10), ro - ri, 5, 9, y('rho'), 'stone')
            W.call(SC + 'create_tower.create_tower', S2.E, A(W, [ZERO, l * lv + lv * frac(9, 10), ZERO]), A(W, ID[1]), ro, ri, lv * frac(1, 10), 1, 3,
                   FALSE, y('rho'), 'stone', sf)
        same_stones(r, 'colosseum: rings of arches carrying rings of stone', S, f, list(stones(S).values()), list(stones(S2).values()))
    with r.section('pantheon', 'create_pantheon'):
        S, f = ident('create_pantheon')(r, ID)
        S2 = SceneWorld(r)
        W = S2.W
        W.call(SC + 'create_tower.create_tower', S2.E, A(W, ID[0]), A(W, ID[1]), ro, ri, h, 2, 4, FALSE, y('rho'), 'stone', frac(99, 100))
        W.call(SC + 'create_dome.create_dome', S2.E, A(W, [ZERO, h, ZERO]), A(W, ID[1]), ro, ri, 2, 4, y('rho'), 'stone')
        same_stones(r, 'pantheon: a dome on a tower, of the given total height', S, f, list(stones(S).values()), list(stones(S2).values()))
    with r.section('temple', 'create_temple'):
        S, f = ident('create_temple')(r)
        st = stones(S)
        temple(r, S, f, list(st.values()))


def temple(r, S, f, st):
    """mirror images of the stones are stones, and everything stands on something"""
    hk, c = list(HK), care(S)
    nm = list(S.made())
    for seed in (1, 2, 3):
        s = sample(c, hk, seed)
        if s is None:
            return r.undecided('temple', f, 'no admissible interpretation')
        N = [num_at(p, s) for p in st]

        def pts(n):
            return frozenset(tuple(np.round(v, 6) + 0.0) for v in n)
        sets = [pts(n) for n in N]
        for ax, side in ((0, 'left and right'), (2, 'front and back')):
            for k, n in enumerate(N):
                m = n.copy()
                m[:, ax] *= -1
                r.fact('temple: %s are mirror images [%d, %d]' % (side, k, seed), pts(m) in sets, f,
                       '%s has no mirror image' % nm[k], how='random interpretation')
        r.fact('temple: no two bodies fill the same place [%d]' % seed, len(set(sets)) == len(sets), f, 'two bodies coincide',
               how='random interpretation')
    tops = [extent(p, 1)[1] for p in st]
    tn = [s.T(t) for t in tops]
    for k, p in enumerate(st):
        lo = extent(p, 1)[0]
        z = s.T(lo)
        j = min(range(len(st)), key=lambda i: abs(tn[i] - z))
        if abs(z) < 1e-9 or abs(z) < abs(tn[j] - z):
            r.eq('temple: a body rests on the ground [%d]' % k, lo, ZERO, f, care=c, hooks=hk)
        else:
            r.eq('temple: a body rests at the height of the top of another [%d]' % k, lo, tops[j], f, care=c, hooks=hk)
    r.fact("temple: it stands on the ground", abs(min(s.T(extent(p, 1)[0]) for p in st)) < 1e-9, f, "the lowest point is not at height zero")


# ---------------------------------------------------------------- lattices, containers
def lattice_bodies(r, what, S, f, bodies, r0, q0, size, IJK, shapes, orient, hooks=HK, order=None):
    """bodies sit at the centres of the cells of the box size (corner r0, turned by q0)"""
    W = S.W
    I, J, K = IJK
    c = care(S)
    s = sample(c, list(hooks))
    cell = [size[0] / I, size[1] / J, size[2] / K]
    if not r.fact('%s: one body per cell' % what, len(bodies) == I * J * K, f, '%d bodies for %d cells' % (len(bodies), I * J * K)):
        return
    at = [num_at(S.pose(b)[0], s) for b in bodies]
    left = set(range(len(bodies)))
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        p = qrot(q0, arr([(i + frac(1, 2)) * cell[0], (j + frac(1, 2)) * cell[1], (k + frac(1, 2)) * cell[2]])) + r0
        pn = num_at(p, s)
        n = min(left, key=lambda x: ((at[x] - pn) ** 2).sum())
        left.discard(n)
        b = bodies[n]
        tag = '%s: cell (%d,%d,%d)' % (what, i, j, k)
        eqv(r, tag + ' holds a body at its centre', W, S.pose(b)[0], p, f, care=c, hooks=list(hooks))
        if shapes is not None:
            want = shapes[(i + j + k) % len(shapes)]
            r.fact(tag + ' has the shape the pattern says', W.get(W.get(b, 'shape'), 'name') == want, f,
                   'shape %s instead of %s' % (W.get(W.get(b, 'shape'), 'name'), want))
        ql = orient(n)
        if ql is not None:
            eqv(r, tag + ' is oriented as asked', W, qmat(S.pose(b)[1]).ravel(), matmul(qmat(q0), qmat(ql)).ravel(), f, care=c, hooks=list(hooks))


def fits(r, what, S, f, body, cellsize, hooks=HK):
    """the longest side of the model box of a lattice piece is nine tenths of the smallest cell side"""
    W = S.W
    v = S.world_vertices(body)
    rm, qm = S.model_pose(body)
    m = np.array([qrot(qconj(qm), p - rm) for p in v], dtype=object)
    ext = [tm.fmax(hi - lo, ZERO) for lo, hi in (extent(m, ax) for ax in range(3))]
    return m, ext


def small(S, size, IJK, factor):
    a = [size[0] / IJK[0], size[1] / IJK[1], size[2] / IJK[2]]
    return tm.fmin(tm.fmin(a[0], a[1]), a[2]) * factor


ONEQ = arr([1, 0, 0, 0])


def R21(r):
    """lattices fill their box cell by cell; containers have the asked size and place"""
    hk = list(HK)
    w, h, d = y('w'), y('h'), y('d')
    size = [w, h, d]
    q0, r0 = V('q', 4), V('r', 3)
    with r.section('lattice', 'create_lattice'):
        for flags, orient, tag in (((), lambda n: V('q%d' % (n + 1), 4), 'random'),
                                   ((FALSE,), lambda n: ONEQ, 'plain'),
                                   ((FALSE, 'q30'), lambda n: V('q30', 4), 'oriented')):
            S = SceneWorld(r)
            W = S.W
            f = W.fn(SC + 'create_lattice.create_lattice')
            ls = lattice_shapes(S)
            a = [A(W, r0), A(W, q0), ls, w, h, d, 2, 3, 2, y('rho'), 'stone'] + [A(W, V('q30', 4)) if x == 'q30' else x for x in flags]
            W.call(f, S.E, *a)
            b = list(S.made().values())
            lattice_bodies(r, 'lattice (%s)' % tag, S, f, b, r0, q0, size, (2, 3, 2), items(W, ls), orient)
            if tag == 'random':
                qs = [cells(W, W.get(x, 'q')) for x in b]
                r.fact('lattice: every body draws its own orientation', S.nq == len(b), f, '%d orientations are drawn for %d bodies' % (S.nq, len(b)))
    with r.section('jack lattice', 'create_jack_lattice'):
        S, f = ident('create_jack_lattice')(r)
        b = list(S.made().values())
        lattice_bodies(r, 'jack lattice', S, f, b, r0, q0, size, (2, 1, 2), None, lambda n: ONEQ)
        piece(r, 'jack lattice', S, f, b[0], small(S, size, (2, 1, 2), frac(9, 10)), 'jack')
    hp, rr = y('hp'), y('rr')
    for nm, hgt in (('create_funnel', 3 * hp), ('create_glasses', frac(5, 4) * hp)):
        with r.section(nm, nm):
            S, f = ident(nm)(r)
            c = care(S)
            new = list(S.made().values())
            small_ones = [b for b in new if not is_fixed(S, b)]
            big = [b for b in new if is_fixed(S, b)]
            lattice_bodies(r, nm, S, f, small_ones, arr([-w / 2, hgt, -d / 2]), ONEQ, size, (2, 1, 2), None,
                           lambda n: V('q%d' % (n + 1), 4))
            piece(r, nm, S, f, small_ones[0], small(S, size, (2, 1, 2), frac(9, 10)), 'small piece')
            if r.fact('%s: one container' % nm, len(big) == 1, f, '%d fixed bodies' % len(big)):
                m, ext = fits(r, nm, S, f, big[0], None)
                for ax, e in enumerate((2 * rr, hp, 2 * rr)):
                    r.eq('%s: the container has the asked size along axis %d' % (nm, ax), ext[ax], e, f, care=c, hooks=hk)
                rm, qm = S.model_pose(big[0])
                eqv(r, '%s: place of the container' % nm, S.W, A(S.W, rm), [ZERO, frac(3, 2) * hp if nm == 'create_funnel' else hp / 2, ZERO], f, care=c, hooks=hk)
                R = [[1, 0, 0], [0, -1, 0], [0, 0, -1]] if nm == 'create_funnel' else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
                eqv(r, '%s: the container stands %s' % (nm, 'upside down' if nm == 'create_funnel' else 'upright'), S.W,
                    A(S.W, qmat(qm).ravel()), [lift(x) for x in np.ravel(R)], f, care=c, hooks=hk)
    with r.section('glasses orientation', 'create_glasses'):
        S = SceneWorld(r)
        f = S.W.fn(SC + 'create_glasses.create_glasses')
        S.W.call(f, S.E, hp, rr, w, h, d, 2, 1, 2, y('rho'), 'stone', FALSE)
        b = [x for x in S.made().values() if not is_fixed(S, x)]
        half = tm.sqrt(lift(2)) / 2
        lattice_bodies(r, 'glasses without random orientation', S, f, b, arr([-w / 2, frac(5, 4) * hp, -d / 2]), ONEQ, size, (2, 1, 2), None,
                       lambda n: arr([half, -half, 0, 0]))
    with r.section('poles', 'create_poles'):
        S, f = ident('create_poles')(r)
        c = care(S)
        new = list(S.made().values())
        fx = [b for b in new if is_fixed(S, b)]
        fr = [b for b in new if not is_fixed(S, b)]
        lattice_bodies(r, 'poles', S, f, fr, arr([-w / 2, 2 * hp, -d / 2]), ONEQ, size, (2, 1, 2), None, lambda n: V('q%d' % (n + 1), 4))
        r.fact('poles: a grid of two by two poles', len(fx) == 4, f, '%d poles' % len(fx))
        W = S.W
        cyl = cells(W, W.call(MS + 'create_cylinder', rr, hp)[0])
        want = [np.array([v + arr([-w / 2 + rr + i * w / 2, hp / 2, -d / 2 + rr + k * d / 2]) for v in cyl], dtype=object)
                for i in range(2) for k in range(2)]
        same_stones(r, 'poles', S, f, [S.world_vertices(b) for b in fx], want)
        for k, b in enumerate(fx):
            lo, hi = extent(S.world_vertices(b), 1)
            r.eq('poles: pole %d stands on the ground' % k, lo, ZERO, f, care=c, hooks=hk)
    with r.section('sandbox', 'create_sandbox'):
        S, f = ident('create_sandbox')(r)
        new = list(S.made().values())
        fx = [b for b in new if is_fixed(S, b)]
        fr = [b for b in new if not is_fixed(S, b)]
        t = h / 10
        lattice_bodies(r, 'sandbox', S, f, fr, arr([-w / 2, frac(3, 2) * h + t, -d / 2]), ONEQ, size, (2, 1, 2), None,
                       lambda n: V('q%d' % (n + 1), 4))
        piece(r, 'sandbox', S, f, fr[0], small(S, size, (2, 1, 2), frac(9, 10)), 'grain')
        mid = h / 2 + t
        want = [box_at([-(w + t) / 2, mid, ZERO], [t, h, d]), box_at([(w + t) / 2, mid, ZERO], [t, h, d]),
                box_at([ZERO, mid, (d + t) / 2], [w + 2 * t, h, t]), box_at([ZERO, mid, -(d + t) / 2], [w + 2 * t, h, t]),
                box_at([ZERO, t / 2, ZERO], [w + 2 * t, t, d + 2 * t])]
        same_stones(r, 'sandbox: walls and base enclose the box', S, f, [S.world_vertices(b) for b in fx], [np.array(x, dtype=object) for x in want])
    with r.section('rock slide', 'create_rock_slide'):
        S, f = ident('create_rock_slide')(r)
        new = S.made()
        files = [x for x in S.files if isinstance(x, str)]
        r.fact('rock slide: the landscape and its twenty buildings are read, each once', len(files) == len(set(files)) == 21, f,
               '%d files, %d different' % (len(files), len(set(files))))
        rocks = list(new.values())[21:]
        still = list(new.values())[:21]
        for k, b in enumerate(still):
            rm, qm = S.model_pose(b)
            eqv(r, 'rock slide: landscape and buildings keep the coordinates of their files [%d]' % k, S.W, A(S.W, list(rm) + list(qmat(qm).ravel())),
                [ZERO] * 3 + [ONE, ZERO, ZERO, ZERO, ONE, ZERO, ZERO, ZERO, ONE], f)
        q45 = arr([tm.fun('cos', PI * 3 / 8), ZERO, tm.fun('sin', PI * 3 / 8), ZERO])
        lattice_bodies(r, 'rock slide', S, f, rocks, arr([-10, 16, 5]), q45, size, (2, 1, 2), None, lambda n: V('q%d' % (n + 1), 4))
        piece(r, 'rock slide', S, f, rocks[0], small(S, size, (2, 1, 2), frac(9, 10)), 'rock')


def is_fixed(S, b):
    v = S.W.ip.truth(S.W.get(b, 'is_fixed'), S.W.st)
    if tm.implies(S.W.st.pc, v):
        return True
    if tm.implies(S.W.st.pc, ~v):
        return False
    raise Unsupported('whether a body is fixed is unknown')


def piece(r, what, S, f, body, side, name):
    m, ext = fits(r, what, S, f, body, None)
    r.eq('%s: the %s is padded to fit a cell' % (what, name), tm.fmax(tm.fmax(ext[0], ext[1]), ext[2]), side, f, care=care(S), hooks=list(HK))


# ---------------------------------------------------------------- mechanisms
def joint(S, h):
    """world origin and axis of a hinge on both sides, and its two bodies"""
    W = S.W
    out = []
    for side, arm, ax in (('parent', 'arm_p', 'axis_p'), ('child', 'arm_c', 'axis_c')):
        b = W.get(h, side)
        rb, qb = S.pose(b)
        out.append((b, qrot(qb, cells(W, W.get(h, arm))) + rb, qrot(qb, cells(W, W.get(h, ax)))))
    return out


def centre(S, b):
    """world position of the origin of the model frame"""
    return S.model_pose(b)[0]


GEAR = SC + 'create_gear_train.GearFactory.'


def R22(r):
    """mechanism scenes: joints join the right bodies at the right place"""
    hk = list(HK)
    a = y('a')
    with r.section('hinge chain', 'create_cube_hinge_chain'):
        S, f = ident('create_cube_hinge_chain')(r, centred=True)
        W = S.W
        b = list(S.made().values())
        c = care(S)
        P = [centre(S, x) for x in b]
        for k in range(3):
            eqv(r, 'hinge chain: it is centred at the origin and symmetric [%d]' % k, W, P[k] + P[2 - k], zeros(3), f, care=c, hooks=hk)
            R = qmat(S.model_pose(b[k])[1])
            s2 = tm.sqrt(lift(2)) / 2
            eqv(r, 'hinge chain: cubes stand on edge [%d]' % k, W, R.ravel(), arr([[s2, -s2, 0], [s2, s2, 0], [0, 0, 1]]).ravel(), f, care=c, hooks=hk)
            v = S.world_vertices(b[k])
            lo, hi = extent(v, 0)
            r.eq('hinge chain: cubes have the given edge length [%d]' % k, hi - lo, a * tm.sqrt(lift(2)), f, care=c, hooks=hk)
            if k:
                r.holds('hinge chain: neighbours do not touch [%d]' % k, tm.lt(extent(S.world_vertices(b[k - 1]), 0)[1], lo), f, care=c, hooks=hk)
                eqv(r, 'hinge chain: equal spacing [%d]' % k, W, P[k] - P[k - 1], P[1] - P[0], f, care=c, hooks=hk)
        hs = list(S.hinges().values())
        if r.fact('hinge chain: one hinge between each pair of neighbours', len(hs) == 2, f, '%d hinges for 3 cubes' % len(hs)):
            seen = set()
            for k, hg in enumerate(hs):
                (p, op, sp), (q, oq, sq) = joint(S, hg)
                ip, iq = [next((j for j, x in enumerate(b) if W.ip.same(x, z)), None) for z in (p, q)]
                if not r.fact('hinge chain: hinge %d joins neighbours' % k, ip is not None and iq is not None and abs(ip - iq) == 1, f,
                              'it joins cubes %s and %s' % (ip, iq)):
                    continue
                seen.add(min(ip, iq))
                for z, o, ax in ((p, op, sp), (q, oq, sq)):
                    eqv(r, 'hinge chain: hinge %d is half way between the cubes' % k, W, o, (P[ip] + P[iq]) / 2, f, care=c, hooks=hk, samples=4)
                    eqv(r, 'hinge chain: hinge %d turns about z' % k, W, ax, [ZERO, ZERO, ONE], f, care=c, hooks=hk, samples=4)
            r.fact('hinge chain: every pair of neighbours is joined', seen == {0, 1}, f, 'pairs %s' % sorted(seen))
    with r.section('chain mail', 'create_chainmail'):
        chainmail(r, hk)
    with r.section('gear train', 'create_gear_train'):
        gear_train(r, hk)


def chainmail(r, hk):
    nc, nr = 2, 3
    ri, ro, st = y('ri'), y('ri') + y('th'), y('st')
    for pinned in (True, False):
        S = SceneWorld(r)
        W = S.W
        f = W.fn(SC + 'create_chainmail.create_chainmail')
        # rings have room for each other: major radius more than twice the minor one
        R, m = 2 * y('ri') + y('th'), y('ri')
        W.call(f, S.E, R, m, nc, nr, st, y('rho'), 'stone', TRUE if pinned else FALSE)
        c = care(S)
        s = sample(c, hk)
        new = S.made()
        b = list(new.values())
        delta = 2 * R + (2 * R - 4 * m) * st
        want = []
        for j in range(nr + 1):
            for i in range(nc + 1):
                want.append((lift(i), lift(j), 'knot', (i in (0, nc)) and (j in (0, nr))))
        for j in range(nr + 1):
            for i in range(nc):
                want.append((i + frac(1, 2), lift(j), 'x', False))
        for j in range(nr):
            for i in range(nc + 1):
                want.append((lift(i), j + frac(1, 2), 'z', False))
        if not r.fact('chain mail: a knot ring per grid point and a link ring per grid edge', len(b) == len(want), f, '%d rings instead of %d' % (len(b), len(want))):
            continue
        C = [centre(S, x) for x in b]
        N = [num_at(x, s) for x in C]
        left = set(range(len(b)))
        for k, (i, j, kind, corner) in enumerate(want):
            p = arr([(i - frac(nc, 2)) * delta, ZERO, (frac(nr, 2) - j) * delta])
            pn = num_at(p, s)
            n = min(left, key=lambda t: ((N[t] - pn) ** 2).sum())
            left.discard(n)
            eqv(r, 'chain mail: ring %d is at its grid place' % k, W, C[n], p, f, care=c, hooks=hk)
            ax = qmat(S.model_pose(b[n])[1])[:, 2]
            d = {'knot': [0, 1, 0], 'x': [0, 0, 1], 'z': [1, 0, 0]}[kind]
            eqv(r, 'chain mail: axis of ring %d' % k, W, [x * x for x in ax], [lift(x) for x in d], f, care=c, hooks=hk)
            r.fact('chain mail: ring %d is %s' % (k, 'pinned' if pinned and corner else 'free'), is_fixed(S, b[n]) == (pinned and corner), f,
                   'ring at grid place (%s, %s) is %s' % (tm.show(i), tm.show(j), 'fixed' if is_fixed(S, b[n]) else 'free'))


def gear_train(r, hk):
    n = 3
    S = SceneWorld(r, centred=True)
    W = S.W
    f = W.fn(SC + 'create_gear_train.create_gear_train')
    teeth = [12, 7, 15]
    asm = []
    W.ip.models['numpy.random.choice'] = lambda ip, st, a, kw: ip.np.n_array([ip.lst([lift(z) for z in teeth], st)], {}, st)
    om = []

    def uniform(ip, st, a, kw):
        om.append(tm.sym('omega%d' % len(om)))
        return om[-1]
    W.ip.models['numpy.random.uniform'] = uniform
    W.call(f, S.E, n, y('rho'), 'stone')
    c = care(S)
    new = S.made()
    b = list(new.values())
    gears = [x for x in b if not is_fixed(S, x)]
    ground = [x for x in b if is_fixed(S, x)]
    if not r.fact('gear train: the gears and one fixed body', len(gears) == n and len(ground) == 1, f, '%d gears, %d fixed' % (len(gears), len(ground))):
        return
    P = [centre(S, g) for g in gears]
    M = [qmat(S.model_pose(g)[1]) for g in gears]
    for k in range(n):
        eqv(r, 'gear train: gear %d turns about the vertical' % k, W, M[k][:, 2], [ZERO, ONE, ZERO], f, care=c, hooks=hk)
    for k in range(n - 1):
        d = P[k + 1] - P[k]
        R = frac(teeth[k] + teeth[k + 1], 2)
        r.eq('gear train: pitch circles of gears %d and %d are tangent' % (k, k + 1), d[0] * d[0] + d[2] * d[2], R * R, f, care=c, hooks=hk)
        # phases: at the point of contact a tooth of one gear meets a gap of the other
        u = [d[0] / R, d[2] / R]
        c1, s1 = M[k][0][0] * u[0] + M[k][2][0] * u[1], M[k][0][1] * u[0] + M[k][2][1] * u[1]
        c2, s2 = -(M[k + 1][0][0] * u[0] + M[k + 1][2][0] * u[1]), -(M[k + 1][0][1] * u[0] + M[k + 1][2][1] * u[1])
        a1, b1 = cpow(c1, s1, teeth[k])
        a2, b2 = cpow(c2, s2, teeth[k + 1])
        # angle teeth1*a1 + teeth2*a2 = 0 mod 2 pi
        r.eq('gear train: teeth of gear %d meet gaps of gear %d' % (k + 1, k), a1 * a2 - b1 * b2, ONE, f, care=c, hooks=hk)
    hs = list(S.hinges().values())
    if r.fact('gear train: one hinge per gear', len(hs) == n, f, '%d hinges' % len(hs)):
        used = set()
        for k, h in enumerate(hs):
            (p, op, sp), (q, oq, sq) = joint(S, h)
            g = next((j for j, x in enumerate(gears) if W.ip.same(x, p) or W.ip.same(x, q)), None)
            ok = g is not None and (W.ip.same(p, ground[0]) or W.ip.same(q, ground[0]))
            if not r.fact('gear train: hinge %d joins a gear to the fixed body' % k, ok, f, 'it joins something else'):
                continue
            used.add(g)
            com = S.pose(gears[g])[0]
            for nm, o, ax in (('parent', op, sp), ('child', oq, sq)):
                r.eq('gear train: hinge %d has the rotation axis of its gear (%s)' % (k, nm), dot(ax, M[g][:, 2]) * dot(ax, M[g][:, 2]), ONE, f,
                     care=c, hooks=hk, samples=4)
                x = cross(o - com, M[g][:, 2])
                eqv(r, 'gear train: hinge %d goes through its gear (%s)' % (k, nm), W, x, zeros(3), f, care=c, hooks=hk, samples=4)
        r.fact('gear train: every gear is hinged', len(used) == n, f, 'gears %s' % sorted(used))
    top = max(num_at(S.world_vertices(ground[0]), sample(c, hk))[:, 1])
    low = min(num_at(S.world_vertices(g), sample(c, hk))[:, 1].min() for g in gears)
    r.fact('gear train: the gears are above the ground', top < low, f, 'a gear reaches below the ground', how='random interpretation')


def cpow(c, s, n):
    """(cos, sin) of n times an angle"""
    a, b = ONE, ZERO
    for _ in range(n):
        a, b = a * c - b * s, a * s + b * c
        a, b = tm.let(a), tm.let(b)
    return a, b
