"""Geometry: grids, meshes, barycentric coordinates, bounding volumes."""
from .lib import *

GR = 'rainbow.geometry.grid3.'
SM = 'rainbow.geometry.surface_mesh.'
VM = 'rainbow.geometry.volume_mesh.'
BC = 'rainbow.geometry.barycentric.'
TE = 'rainbow.geometry.tetrahedron.'
I_, J_, K_ = [tm.sym(x) for x in 'IJK']


def box_hook(s, a):
    """interpretations of a proper box: min < max, extents, indices and points near it"""
    if a.op != 'sym' or not isinstance(a.args[0], str):
        return None
    n = a.args[0]
    b = abs(s.basic(a))
    if n in 'IJK' and len(n) == 1:
        return float(2 + int(b * 10) % 5)
    if n in 'ijk' and len(n) == 1:
        return float(int(b * 10) % 4)
    if n.startswith('mx['):
        return s.T(tm.sym('mn' + n[2:])) + 0.5 + b


def grid(W, n=(I_, J_, K_), values=True):
    mn, mx = V('mn', 3), V('mx', 3)
    G = W.new(GR + 'Grid', A(W, mn), A(W, mx), *n)
    if values:
        W.ip.setattr(G, 'values', W.ip.sarr(lambda idx: tm.app('phi_', *idx), (n[0] * n[1] * n[2],), W.st), W.st)
    return G, mn, mx


def G02(r):
    """grid nodes, cells, interpolation and gradient agree"""
    n3 = (I_, J_, K_)
    i, j, k = [tm.sym(x) for x in 'ijk']
    ijk = (i, j, k)
    hk = [box_hook]
    W = world(r)
    f = W.fn(GR + 'Grid.__init__')
    with r.section('grid', f):
        mn, mx = V('mn', 3), V('mx', 3)
        a, b = A(W, mn), A(W, mx)
        G = W.new(GR + 'Grid', a, b, *n3)
        pc = W.st.pc
        ok = TRUE
        for d in range(3):
            ok = ok & tm.le(mn[d], mx[d]) & tm.le(lift(2), n3[d])
        r.eq('a grid is accepted exactly for an ordered box and at least two nodes per axis', pc, ok, f)
        h = [(mx[d] - mn[d]) / (n3[d] - 1) for d in range(3)]
        f = W.fn(GR + 'Grid.get_node_coord')
        eqv(r, 'node coordinates are evenly spaced from the lower corner', W, W.meth(G, 'get_node_coord', *ijk), arr([mn[d] + h[d] * ijk[d] for d in range(3)]), f, hooks=hk)
        eqv(r, 'the last node is the upper corner', W, W.meth(G, 'get_node_coord', I_ - 1, J_ - 1, K_ - 1), mx, f, hooks=hk)
        f = W.fn(GR + 'Grid.get_linear_index')
        L = W.meth(G, 'get_linear_index', *ijk)
        valid = W.ip.truth(W.meth(G, 'is_valid_node_index', *ijk), W.st)
        want = TRUE
        for d in range(3):
            want = want & tm.le(ZERO, ijk[d]) & tm.lt(ijk[d], n3[d])
        r.eq('valid node indices are those of existing nodes', valid, want, W.fn(GR + 'Grid.is_valid_node_index'), hooks=hk, care=TRUE)
        # bijection onto [0, IJK): every node of a few grids gets its own slot
        bad = None
        for sz in ((2, 3, 4), (4, 2, 3), (3, 4, 2)):
            seen = set()
            for x in np.ndindex(*sz):
                s = tm.Sample(1, hooks=[tm.Sizes(dict(zip(n3 + ijk, sz + x)))])
                seen.add(s.integer(L))
            if seen != set(range(sz[0] * sz[1] * sz[2])):
                bad = sz
        r.fact('every node has its own slot in the value array', bad is None, f, 'slots collide or leave the array for a grid of %s nodes' % (bad,), how='random interpretation')
        f = W.fn(GR + 'Grid.get_enclosing_cell_idx')
        p = V('p', 3)
        pa = A(W, p)
        c = W.meth(G, 'get_enclosing_cell_idx', pa)
        c = list(c) if isinstance(c, tuple) else list(cells(W, c))
        for d in range(3):
            fl = tm.fun('floor', (p[d] - mn[d]) / h[d])
            r.eq('enclosing cell is the clamped one [%d]' % d, c[d], tm.fmin(tm.fmax(fl, ZERO), n3[d] - 2), f, hooks=hk)
        eqv(r, 'locating a cell leaves the point alone', W, pa, p, f)
        r.fact('grid keeps its own corners', all(storage_(W.get(G, x)) not in (a.oid, b.oid) for x in ('min_coord', 'max_coord')), f, 'shares the caller\'s arrays')
    W = world(r)
    f = W.fn(GR + 'get_value')
    with r.section('interpolation', f):
        G, mn, mx = grid(W)
        p, h = V('p', 3), V('h', 3)
        W.ip.setattr(G, 'spacing', A(W, h), W.st)
        hk = [box_hook, pos_syms_('h[0]', 'h[1]', 'h[2]')]
        c = W.meth(G, 'get_enclosing_cell_idx', A(W, p))
        node = lambda a, b, d: tm.app('phi_', c[0] + a + I_ * (c[1] + b + J_ * (c[2] + d)))
        t = [(p[d] - mn[d] - c[d] * h[d]) / h[d] for d in range(3)]

        def tri(w):
            v = ZERO
            for a, b, d in np.ndindex(2, 2, 2):
                v = v + w[0][a] * w[1][b] * w[2][d] * node(a, b, d)
            return v
        lin = [(ONE - t[d], t[d]) for d in range(3)]
        val = W.call(f, G, A(W, p))
        r.eq('value is the trilinear interpolant', val, tri(lin), f, hooks=hk)
        f = W.fn(GR + 'get_gradient')
        g = cells(W, W.call(f, G, A(W, p)))
        for d in range(3):
            w = list(lin)
            w[d] = (-ONE / h[d], ONE / h[d])
            r.eq('gradient is the derivative of the interpolant [%d]' % d, g[d], tri(w), f, hooks=hk)
        i_, j_, k_ = ijk
        f = W.fn(GR + 'Grid.get_node_value')
        r.eq('node value is read from the node\'s slot', W.meth(G, 'get_node_value', *ijk), tm.app('phi_', i_ + I_ * (j_ + J_ * k_)), f, hooks=hk)
    W = world(r)
    f = W.fn(GR + 'is_inside')
    with r.section('is_inside', f):
        G, mn, mx = grid(W, values=False)
        p, b = V('p', 3), tm.sym('b')
        got = W.ip.truth(W.call(f, G, A(W, p), b), W.st)
        pc = W.st.pc
        want = TRUE
        for d in range(3):
            want = want & tm.le(mn[d] + b, p[d]) & tm.le(p[d], mx[d] - b)

        def about(s, a):
            # points on, near and between the sides of the box and of the shrunken box
            nm = str(a.args[0])
            if a.op == 'sym' and nm == 'b':
                return [0.0, .125, .25][s.seed % 3]
            if a.op == 'sym' and nm.startswith('p['):
                x = s.basic(a)
                d = nm[1:]
                lo, hi, w = s.T(tm.sym('mn' + d)), s.T(tm.sym('mx' + d)), s.T(b)
                k = int(abs(x) * 1000) % 8
                return [lo + w, hi - w, (lo + hi) / 2, lo * .3 + hi * .7, lo + w + .01, hi - w - .01, (lo - w if x < 0 else hi + w), (lo + w / 2 if x < 0 else hi - w / 2)][k]
            return box_hook(s, a)
        r.eq('a point is inside when it is inside the shrunken box', got, want, f, care=pc, hooks=[about])
    sizes = [(2, 3, 4), (4, 2, 2), (3, 3, 2)]
    W = world(r)
    f = W.fn(GR + 'get_nodes_array')
    with r.section('nodes array', f):
        G, mn, mx = grid(W, values=False)
        X = W.call(f, G)
        table(r, W, f, 'the node array lists every node at its slot', X, sizes, 3,
              lambda s, ix, d: s.T(mn[d] + (mx[d] - mn[d]) / (n3[d] - 1) * ix[d]), [box_hook])
    W = world(r)
    f = W.fn(GR + 'eval_on_grid')
    with r.section('sampling', f):
        G, mn, mx = grid(W, values=False)
        W.call(f, G, Native(lambda ip, st, args, kw: tm.app('func', *ip.cells(args[0], st))))
        h = [(mx[d] - mn[d]) / (n3[d] - 1) for d in range(3)]
        table(r, W, f, 'sampling stores the function value of every node at its slot', W.get(G, 'values'), sizes, 1,
              lambda s, ix, d: s.T(tm.app('func', *[mn[e] + h[e] * ix[e] for e in range(3)])), [box_hook])


def storage_(v):
    return getattr(v, 'oid', None)


def table(r, W, f, name, X, sizes, cols, want, hooks):
    """the array X of grid nodes holds want(node, column) in the node's slot, for several grid sizes"""
    for sz in sizes:
        s = tm.Sample(3, hooks=[tm.Sizes(dict(zip((I_, J_, K_), sz)))] + hooks)
        try:
            M = instance_in(W, X, s)
        except (tm.Undef, Unsupported) as e:
            r.undecided(name, f, 'contents of the array not followed: %s' % e)
            return
        M = M.reshape(len(M), -1)
        if M.shape != (sz[0] * sz[1] * sz[2], cols):
            r.fact(name, False, f, 'array of shape %s for %s nodes' % (M.shape, sz))
            return
        for ix in np.ndindex(*sz):
            row = ix[0] + sz[0] * (ix[1] + sz[1] * ix[2])
            for d in range(cols):
                w = want(s, ix, d)
                if abs(M[row, d] - w) > 1e-9 * (1 + abs(w)):
                    r.fact(name, False, f, 'grid %s, node %s, column %d: %g instead of %g' % (sz, ix, d, M[row, d], w))
                    return
    r.fact(name, True, f, how='random interpretation')


# ---------------------------------------------------------------- meshes
def pos_syms_(*names):
    def hk(s, a):
        if a.op == 'sym' and a.args[0] in names:
            return 0.4 + abs(s.basic(a))
    return hk


def closed_surface(V_, T_):
    """why (V,T) is not a closed, consistently outward oriented surface (None when it is)"""
    T_ = T_.astype(int)
    if T_.min() < 0 or T_.max() >= len(V_):
        return 'a triangle refers to vertex %d of %d' % (T_.max() if T_.max() >= len(V_) else T_.min(), len(V_))
    edges = {}
    for t in T_:
        if len(set(t)) < 3:
            return 'triangle %s is degenerate' % (tuple(t),)
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            if (a, b) in edges:
                return 'edge %s is used twice in the same direction' % ((a, b),)
            edges[a, b] = 1
    for a, b in edges:
        if (b, a) not in edges:
            return 'edge %s has no opposite triangle' % ((a, b),)
    if set(T_.ravel()) != set(range(len(V_))):
        return 'vertex %s is in no triangle' % (set(range(len(V_))) - set(T_.ravel()))
    vol = 0.0
    for t in T_:
        a, b, c = V_[t[0]], V_[t[1]], V_[t[2]]
        vol += np.dot(a, np.cross(b, c)) / 6
        if np.linalg.norm(np.cross(b - a, c - a)) < 1e-9:
            return 'triangle %s has no area' % (tuple(t),)
    if vol <= 0:
        return 'the enclosed volume is %g: triangles face inwards' % vol
    return None


def mesh_arrays(r, W, name, f, out, hooks, seed=1):
    try:
        v, t = out if isinstance(out, tuple) else items(W, out)
        s = tm.Sample(seed, hooks=hooks)
        return instance_in(W, v, s), instance_in(W, t, s), s
    except (tm.Undef, Unsupported, TypeError, ValueError, AttributeError) as e:
        r.undecided(name, f, 'mesh arrays not followed: %s' % e)
        return None


def surface_checks():
    """(function, arguments, sizes, shape test of a vertex)"""
    a, b, c = [tm.sym(x) for x in ('a', 'b', 'c')]
    n, m = tm.sym('n'), tm.sym('m')
    nm = [{n: 3, m: 3}, {n: 5, m: 4}, {n: 6, m: 7}, {n: 4, m: 8}]
    sph = lambda x, s: abs(np.dot(x, x) ** .5 - s.T(a)) < 1e-9

    def cyl(x, s):
        return abs(x[1]) <= s.T(b) / 2 + 1e-9 and (np.hypot(x[0], x[2]) < 1e-9 or abs(np.hypot(x[0], x[2]) - s.T(a)) < 1e-9)

    def ell(x, s):
        return abs((x[0] / s.T(a)) ** 2 + (x[1] / s.T(b)) ** 2 + (x[2] / s.T(c)) ** 2 - 1) < 1e-9

    def cap(x, s):
        h = s.T(b) / 2
        return abs(np.linalg.norm(x - np.array([0, np.clip(x[1], -h, h), 0])) - s.T(a)) < 1e-9

    def box(x, s):
        return all(abs(abs(x[i]) - s.T(d) / 2) < 1e-9 for i, d in enumerate((a, b, c)))

    def cone(x, s):
        rad = np.hypot(x[0], x[2])
        return (abs(rad) < 1e-9 and min(abs(x[1]), abs(x[1] - s.T(b))) < 1e-9) or (abs(rad - s.T(a)) < 1e-9 and abs(x[1]) < 1e-9)

    def con(x, s):
        rad = np.hypot(x[0], x[2])
        return (abs(rad) < 1e-9 and min(abs(x[1]), abs(x[1] - s.T(c))) < 1e-9) or (abs(rad - s.T(a)) < 1e-9 and abs(x[1]) < 1e-9) or \
            (abs(rad - s.T(b)) < 1e-9 and abs(x[1] - s.T(c)) < 1e-9)

    def tor(x, s):
        return abs((np.hypot(x[0], x[1]) - s.T(a) * 4) ** 2 + x[2] ** 2 - s.T(b) ** 2) < 1e-9
    return [
        ('create_box', (a, b, c), [{}], box, (-b / 2, b / 2)),
        ('create_sphere', (a, n, m), [x for x in nm], sph, (-a, a)),
        ('create_cylinder', (a, b, n, m), nm + [{n: 5, m: 1}, {n: 3, m: 2}], cyl, (-b / 2, b / 2)),
        ('create_cone', (a, b, n), [{n: 3}, {n: 7}], cone, (ZERO, b)),
        ('create_conical', (a, b, c, n), [{n: 3}, {n: 6}], con, (ZERO, c)),
        ('create_ellipsoid', (a, b, c, n, m), nm, ell, (-b, b)),
        ('create_capsule', (a, b, n, m), [x for x in nm if x[m] % 2 == 0], cap, (-a - b / 2, a + b / 2)),
        ('create_torus', (4 * a, b, n, m), nm, tor, None),
    ]


def G03(r):
    """generated meshes are closed, consistently oriented and have the documented shape"""
    adjacency(r)
    for nm, args, sizes, shape, span in surface_checks():
        W = world(r)
        f = W.fn(SM + nm)
        with r.section(nm, f, total=True):
            out = W.call(f, *args)
            bad = shp = None
            ok = False
            for k, sz in enumerate(sizes):
                x = mesh_arrays(r, W, nm, f, out, [tm.Sizes(sz), pos_syms_('a', 'b', 'c')], seed=k)
                if x is None:
                    break
                ok = True
                V_, T_, s = x
                tag = ', '.join('%s=%s' % (p.as_atom().args[0], q) for p, q in sz.items())
                bad = bad or (closed_surface(V_, T_) and '%s (%s)' % (closed_surface(V_, T_), tag))
                off = [v for v in V_ if not shape(v, s)]
                if off and not shp:
                    shp = 'vertex %s is not on the shape (%s)' % (off[0], tag)
                for got, want in zip((V_[:, 1].min(), V_[:, 1].max()), [s.T(x) for x in span or ()]):
                    if abs(got - want) > 1e-9 and not shp:
                        shp = 'along y the shape ends at %g instead of %g (%s)' % (got, want, tag)
            if ok:
                r.fact('%s: the surface is closed and its triangles face outwards' % nm, not bad, f, bad, how='random interpretation')
                r.fact('%s: vertices lie on the requested shape' % nm, not shp, f, shp, how='random interpretation')
    W = world(r)
    f = W.fn(SM + 'create_cuboid')
    with r.section('create_cuboid', f):
        corners = np.array([[-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1], [-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1]], dtype=float)
        P = [V('p%d' % q, 3) for q in range(8)]
        out = W.call(f, *[A(W, p) for p in P])
        x = mesh_arrays(r, W, 'create_cuboid', f, out, [tm.Sizes({P[q][d]: corners[q][d] for q in range(8) for d in range(3)})])
        if x is not None:
            why = closed_surface(x[0], x[1])
            r.fact('create_cuboid: the surface is closed and its triangles face outwards', not why, f, why, how='random interpretation')
            r.fact('create_cuboid: corners are kept in order', np.allclose(x[0], corners), f, 'corners are permuted')
    tet_checks(r)
    mesh_ops(r)


def tet_vol(p):
    return np.dot(p[3] - p[0], np.cross(p[1] - p[0], p[2] - p[0])) / 6


FACES = ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))     # outward faces of a positive tetrahedron, opposite node v


def tets_ok(V_, T_, volume=None):
    T_ = T_.astype(int)
    if T_.min() < 0 or T_.max() >= len(V_):
        return 'a tetrahedron refers to a vertex that does not exist'
    faces = {}
    tot = 0.0
    for t in T_:
        v = tet_vol(V_[t])
        if v <= 1e-12:
            return 'tetrahedron %s has signed volume %g' % (tuple(t), v)
        tot += v
        for a in FACES:
            q = tuple(t[list(a)])
            m = q.index(min(q))
            q = q[m:] + q[:m]
            if q in faces:
                return 'face %s is used by two tetrahedra in the same orientation' % (q,)
            faces[q] = 1
    bnd = [q for q in faces if (q[0], q[2], q[1]) not in faces]
    out = 0.0
    for q in bnd:
        a, b, c = V_[list(q)]
        out += np.dot(a, np.cross(b, c)) / 6
    if volume is not None:
        if abs(tot - volume) > 1e-9 * (1 + volume):
            return 'the tetrahedra have total volume %g instead of %g' % (tot, volume)
    return bnd, tot


def tet_checks(r):
    w, h, d = [tm.sym(x) for x in 'abc']
    W = world(r)
    f = W.fn(VM + 'create_beam')
    with r.section('create_beam', f):
        out = W.call(f, I_, J_, K_, w, h, d)
        bad = None
        done = False
        for k, sz in enumerate([(2, 2, 2), (3, 2, 4), (2, 4, 3), (4, 3, 2), (3, 3, 3)]):
            x = mesh_arrays(r, W, 'create_beam', f, out, [tm.Sizes(dict(zip((I_, J_, K_), sz))), pos_syms_('a', 'b', 'c')], seed=k)
            if x is None:
                break
            done = True
            V_, T_, s = x
            dims = [s.T(q) for q in (w, h, d)]
            q = tets_ok(V_, T_, dims[0] * dims[1] * dims[2])
            if isinstance(q, tuple):
                # conforming: every boundary face lies on the box
                lo, hi = -np.array(dims) / 2, np.array(dims) / 2
                off = [t for t in q[0] if not any((abs(V_[list(t)][:, e] - lo[e]) < 1e-9).all() or (abs(V_[list(t)][:, e] - hi[e]) < 1e-9).all() for e in range(3))]
                q = off and 'face %s inside the box belongs to one tetrahedron only' % (off[0],)
                if not q and (np.abs(V_.min(0) - lo).max() > 1e-9 or np.abs(V_.max(0) - hi).max() > 1e-9):
                    q = 'the mesh does not span the requested box'
            bad = bad or (q and '%s (%s nodes)' % (q, sz))
        if done:
            r.fact('a beam is a conforming mesh of positive tetrahedra filling its box', not bad, f, bad, how='random interpretation')
    W = world(r)
    f = W.fn(VM + 'from_grid3d')
    with r.section('from_grid3d', f):
        G, mn, mx = grid(W)
        out = W.call(f, G)
        X, T_, At = out
        s = tm.Sample(2, hooks=[tm.Sizes({I_: 3, J_: 2, K_: 4}), box_hook])
        try:
            xs, ts = instance_in(W, X, s), instance_in(W, T_, s)
            q = tets_ok(xs, ts, float(np.prod([s.T(mx[e] - mn[e]) for e in range(3)])))
            r.fact('the mesh of a grid is made of positive tetrahedra filling it', isinstance(q, tuple), f, q, how='random interpretation')
            vals = instance_in(W, At, s)
            r.fact('the attribute of a node is its grid value', all(abs(vals.ravel()[i] - s.T(tm.app('phi_', lift(i)))) < 1e-9 for i in range(len(vals))), f, 'values are permuted')
            r.fact('the attributes are a copy', storage_(At) != storage_(W.get(G, 'values')), f, 'shares the grid values')
        except (tm.Undef, Unsupported) as e:
            r.undecided('from_grid3d', f, str(e))


def mesh_ops(r):
    P = V('P', (4, 3))
    ref = np.array([[0.1, 0.2, 0.05], [1.3, 0.1, 0.2], [0.2, 1.1, 0.3], [0.3, 0.25, 1.7]])
    size = tm.Sizes({P[i][j]: ref[i][j] for i in range(4) for j in range(3)})
    one = np.array([[0, 1, 2, 3]])
    W = world(r)
    f = W.fn(VM + 'create_loop_subdivision')
    with r.section('subdivision', f):
        for tag, T_, ref2 in (('one tetrahedron', one, ref), ('two tetrahedra', np.array([[0, 1, 2, 3], [1, 0, 2, 4]]), np.vstack([ref, [[0.4, 0.5, -1.1]]]))):
            P2 = V('P', ref2.shape)
            sz = tm.Sizes({P2[i][j]: ref2[i][j] for i in range(len(ref2)) for j in range(3)})
            x = mesh_arrays(r, W, 'subdivision', f, W.call(f, A(W, P2), A(W, arr(T_.tolist()))), [sz])
            if x is None:
                break
            tot = sum(tet_vol(ref2[t]) for t in T_)
            q = tets_ok(x[0], x[1], tot)
            r.fact('subdividing %s yields positive tetrahedra with the same total volume' % tag, isinstance(q, tuple), f, q, how='random interpretation')
            r.fact('subdividing %s yields eight children each' % tag, len(x[1]) == 8 * len(T_), f, '%d tetrahedra' % len(x[1]))
            r.fact('subdividing %s keeps the original vertices' % tag, np.allclose(x[0][:len(ref2)], ref2), f, 'vertices moved')
            if isinstance(q, tuple):
                r.fact('subdividing %s is conforming' % tag, len(q[0]) == (16 if len(T_) == 1 else 24), f, '%d boundary faces' % len(q[0]))
    W = world(r)
    f = W.fn(VM + 'compute_volumes')
    with r.section('volumes', f):
        v = W.call(f, A(W, P), A(W, arr(one.tolist())))
        e = [P[i] - P[0] for i in range(4)]
        r.eq('volume of a tetrahedron', cells(W, v)[0], dot(e[3], cross(e[1], e[2])) / 6, f)
    W = world(r)
    f = W.fn(VM + 'to_triangles')
    with r.section('to_triangles', f):
        F = instance(W, W.call(f, A(W, arr([[0, 1, 2, 3], [4, 5, 6, 7]]))), [size])
        for e in range(2):
            why = closed_surface(ref, F[4 * e:4 * e + 4] - 4 * e)
            r.fact('the triangles of tetrahedron %d face outwards' % e, not why, f, why, how='random interpretation')
    W = world(r)
    f = W.fn(VM + 'to_tetrahedrons')
    with r.section('to_tetrahedrons', f):
        sc = tm.sym('a')
        x = mesh_arrays(r, W, 'to_tetrahedrons', f, W.call(f, A(W, P), A(W, arr(one.tolist())), sc), [size, tm.Sizes({sc: 0.5})])
        if x is not None:
            c = ref.mean(0)
            r.fact('shrinking keeps the centre and scales the corners', np.allclose(x[0], c + (ref - c) * .5), f, 'vertices elsewhere', how='random interpretation')
            why = closed_surface(x[0], x[1])
            r.fact('shrunken tetrahedra face outwards', not why, f, why, how='random interpretation')
    W = world(r)
    f = W.fn(VM + 'compute_surface')
    with r.section('surface', f):
        for tag, T_, N_ in (('one tetrahedron', one, [[-1] * 4]), ('two tetrahedra', np.array([[0, 1, 2, 3], [1, 0, 2, 4]]), [[-1, -1, -1, 1], [-1, -1, -1, 0]]),
                            ('a face opposite node 0', np.array([[3, 1, 0, 2], [1, 0, 2, 4]]), [[1, -1, -1, -1][::1], [-1, -1, -1, 0]])):
            ref2 = np.vstack([ref, [[0.4, 0.5, -1.1]]])
            if tag.startswith('a face'):
                T_ = np.array([[3, 0, 2, 1], [1, 0, 2, 4]])
                if tet_vol(ref2[T_[0]]) < 0:
                    T_[0] = [3, 2, 0, 1]
            S, O = W.call(f, A(W, arr(T_.tolist())), A(W, arr(N_)))
            S, O = instance(W, S, [size]), instance(W, O, [size]).astype(int)
            V_ = ref2[:4 if len(T_) == 1 else 5]
            why = closed_surface(V_, S)
            r.fact('boundary of %s is closed and faces outwards' % tag, not why, f, why, how='random interpretation')
            own = all(set(S[i].astype(int)) == set(T_[e]) - {T_[e][v]} for i, (e, v) in enumerate(O))
            r.fact('boundary triangles of %s name their tetrahedron and opposite node' % tag, own, f, 'owner or opposite node is wrong', how='random interpretation')
    for nm, args, want in (('translate', [lambda W: A(W, V('t', 3))], lambda v: v + V('t', 3)),
                           ('scale', [tm.sym('a'), tm.sym('b'), tm.sym('c')], lambda v: arr([v[0] * tm.sym('a'), v[1] * tm.sym('b'), v[2] * tm.sym('c')])),
                           ('rotate', [lambda W: A(W, V('q', 4))], lambda v: qrot(V('q', 4), v))):
        W = world(r)
        f = W.fn(SM + nm)
        with r.section(nm, f):
            src = A(W, P)
            M = W.new(SM + 'Mesh', src, A(W, arr([[0, 1, 2]])))
            W.call(f, M, *[x(W) if callable(x) else x for x in args])
            got = cells(W, W.get(M, 'V'))
            for i in range(4):
                eqv(r, '%s moves vertex %d' % (nm, i), W, A(W, got[i]), want(P[i]), f, hooks=[unit_hook('q')])
            eqv(r, '%s leaves the source array alone' % nm, W, src, P, f)
    W = world(r)
    f = W.fn(SM + 'aabb')
    with r.section('aabb', f):
        M = W.new(SM + 'Mesh', A(W, P), A(W, arr([[0, 1, 2]])))
        lo, hi = W.call(f, M)
        for d in range(3):
            a = b = P[0][d]
            for i in range(1, 4):
                a, b = tm.fmin(a, P[i][d]), tm.fmax(b, P[i][d])
            r.eq('bounding box lower corner [%d]' % d, cells(W, lo)[d], a, f)
            r.eq('bounding box upper corner [%d]' % d, cells(W, hi)[d], b, f)
    W = world(r)
    f = W.fn(SM + 'scale_to_unit')
    with r.section('scale_to_unit', f):
        M = W.new(SM + 'Mesh', A(W, P), A(W, arr([[0, 1, 2]])))
        W.call(f, M)
        lo, hi = W.call(SM + 'aabb', M)
        lo, hi = cells(W, lo), cells(W, hi)
        ext = [hi[d] - lo[d] for d in range(3)]
        r.eq('largest extent becomes one', tm.fmax(tm.fmax(ext[0], ext[1]), ext[2]), ONE, f)
        for d in range(3):
            a = b = P[0][d]
            for i in range(1, 4):
                a, b = tm.fmin(a, P[i][d]), tm.fmax(b, P[i][d])
            r.eq('scaling to unit size keeps the centre [%d]' % d, hi[d] + lo[d], a + b, f)


# ---------------------------------------------------------------- barycentric coordinates
MESHES = {'fan': [[1, 2, 0, 3], [4, 0, 2, 3], [5, 2, 4, 3]], 'pair': [[0, 1, 2, 3], [1, 0, 2, 4]], 'reordered pair': [[3, 0, 2, 1], [2, 4, 1, 0]],
          'single': [[2, 0, 1, 3]], 'ring': [[0, 1, 2, 3], [0, 2, 4, 3], [0, 4, 5, 3], [0, 5, 1, 3]], 'apart': [[0, 1, 2, 3], [5, 6, 4, 7], [6, 5, 8, 7]]}


def adjacency(r):
    """neighbours share exactly the face opposite the named node; sorting a mesh renumbers it without changing it"""
    VM, SM = 'rainbow.geometry.volume_mesh.', 'rainbow.geometry.surface_mesh.'
    for tag, Tk in MESHES.items():
        W = world(r)
        f = W.fn(VM + 'compute_neighbors')
        with r.section('neighbours of ' + tag, f):
            aT = A(W, arr(Tk))
            N = cells(W, W.call(f, aT))
            for e, t in enumerate(Tk):
                for v in range(4):
                    face = set(t) - {t[v]}
                    want = [g for g, s in enumerate(Tk) if g != e and face <= set(s)]
                    r.eq('mesh %s: neighbour of element %d opposite node %d' % (tag, e, v), N[e, v], lift(want[0] if want else -1), f)
            eqv(r, 'mesh %s: finding neighbours leaves the elements alone' % tag, W, aT, arr(Tk), f)
            g = W.fn(VM + 'compute_surface')
            S, O = W.ip.np.unpack(W.call(g, aT, A(W, N)), 2, W.st)
            S = [[int(lift(x).const()) for x in t] for t in cells(W, S)]
            O = [[int(lift(x).const()) for x in t] for t in cells(W, O)]
            fs = [[t[a] for a in q] for t in Tk for q in ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))]
            cyc = lambda t: tuple(t[t.index(min(t)):] + t[:t.index(min(t))])
            want = sorted(cyc(q) for q in fs if sum(set(q) == set(p) for p in fs) == 1)
            r.fact('mesh %s: the surface is the outward boundary' % tag, sorted(map(cyc, S)) == want, g, 'faces %s' % S)
            r.fact('mesh %s: surface triangles name their element and opposite node' % tag, len(O) == len(S) and all(set(S[i]) == set(Tk[e]) - {Tk[e][v]} for i, (e, v) in enumerate(O)), g, 'owners %s' % O)
    f = None
    for tag, Tk in MESHES.items():
        for seed in range(3):
            W = world(r)
            f = W.fn(SM + 'axis_sort')
            with r.section('axis sort of ' + tag, f):
                n = max(max(t) for t in Tk) + 1
                P, ax = V('P', (n, 3)), V('axis', 3)
                s = tm.Sample(50 + seed)
                # the case in which the vertices lie along the axis in this order
                W.ip.order = lambda k, s=s: s.T(k)
                src, aT = A(W, P), A(W, arr(Tk))
                M = W.new(VM + 'T4Mesh', src, aT)
                axis = A(W, ax)
                W.call(f, M, axis)
                V2, T2 = cells(W, W.get(M, 'V')), cells(W, W.get(M, 'T'))
                d = lambda p: s.T(dot(p, ax))
                if V2.shape != P.shape or T2.shape != (len(Tk), 4):
                    r.fact('sorting keeps the size of mesh %s' % tag, False, f, 'shapes %s %s' % (V2.shape, T2.shape))
                    continue
                h = [d(v) for v in V2]
                r.fact('vertices of mesh %s are in order along the axis [%d]' % (tag, seed), all(a <= b for a, b in zip(h, h[1:])), f, 'order of heights %s' % h)
                T2 = [[lift(x).const() for x in t] for t in T2]
                if any(x is None or not 0 <= int(x) < n for t in T2 for x in t):
                    r.fact('sorted elements of mesh %s use existing vertices [%d]' % (tag, seed), False, f, 'elements %s' % T2)
                    continue
                el = sorted(tuple(tuple(V2[int(x)]) for x in t).__repr__() for t in T2)
                ref = sorted(tuple(tuple(P[x]) for x in t).__repr__() for t in Tk)
                r.fact('elements of mesh %s connect the same points in the same order [%d]' % (tag, seed), el == ref, f, 'the sorted mesh is another mesh')
                m = [sum(t) for t in T2]
                eqv(r, 'sorting leaves the axis of mesh %s alone [%d]' % (tag, seed), W, axis, ax, f)


def G04(r):
    """barycentric coordinates reproduce points; tetrahedron spheres touch what they should"""
    x1, x2, x3, x4, p = [V(n, 3) for n in ('xa', 'xb', 'xc', 'xd', 'p')]
    W = world(r)
    ar = lambda *xs: [A(W, x) for x in xs]
    f = W.fn(BC + 'compute_barycentric_edge')
    with r.section('edge', f):
        w = W.call(f, *ar(x1, x2, p))
        u = x2 - x1
        t = dot(u, p - x1) / dot(u, u)
        for nm, g, c in (('', TRUE, None), (' before the edge', tm.lt(t, ZERO), None), (' beyond the edge', tm.lt(ONE, t), None)):
            r.eq('edge coordinates locate the closest point%s [0]' % nm, w[0], ONE - t, f, care=g)
            r.eq('edge coordinates locate the closest point%s [1]' % nm, w[1], t, f, care=g)
    f = W.fn(BC + 'compute_barycentric_triangle')
    with r.section('triangle', f):
        w = W.call(f, *ar(x1, x2, x3, p))
        r.eq('triangle coordinates sum to one', w[0] + w[1] + w[2], ONE, f)
        c = x1 * w[0] + x2 * w[1] + x3 * w[2]
        r.eq('triangle coordinates give the closest point of the plane (first edge)', dot(p - c, x2 - x1), ZERO, f)
        r.eq('triangle coordinates give the closest point of the plane (second edge)', dot(p - c, x3 - x1), ZERO, f)
    f = W.fn(BC + 'compute_barycentric_tetrahedron')
    with r.section('tetrahedron', f):
        w = W.call(f, *ar(x1, x2, x3, x4, p))
        s = w[0] + w[1] + w[2] + w[3]
        vol = dot(x4 - x1, cross(x2 - x1, x3 - x1))
        for nm, g in ((' (right-handed)', tm.lt(ZERO, vol)), (' (left-handed)', tm.lt(vol, ZERO))):
            r.eq('tetrahedron coordinates sum to one' + nm, s, ONE, f, care=g)
            c = x1 * w[0] + x2 * w[1] + x3 * w[2] + x4 * w[3]
            for d in range(3):
                r.eq('tetrahedron coordinates reproduce the point%s [%d]' % (nm, d), c[d], p[d], f, care=g)
    W = world(r)
    ar = lambda *xs: [A(W, x) for x in xs]
    f = W.fn(BC + 'compute_barycentric_derivatives_tetrahedron')
    with r.section('derivatives', f):
        g = W.call(f, *ar(x1, x2, x3, x4))
        pc = W.st.pc
        X = [x1, x2, x3, x4]
        vol6 = dot(x4 - x1, cross(x2 - x1, x3 - x1))
        # w_i is affine, one at node i and zero at the others: its gradient has the matching inner products with the edges
        for i in range(4):
            gi = cells(W, g[i])
            for j in range(1, 4):
                want = ONE if i == j else ZERO
                if i == 0:
                    want = -ONE
                r.eq('derivative of coordinate %d along edge %d' % (i, j), dot(gi, X[j] - X[0]), want, f, care=tm.lt(ZERO, vol6))
                if not tm.implies(pc, tm.lt(ZERO, vol6)):
                    r.eq('derivative of coordinate %d along edge %d of a left-handed tetrahedron, if given' % (i, j), dot(gi, X[j] - X[0]), want, f, care=tm.lt(vol6, ZERO) & pc)
    for nm, n in (('edge', 2), ('triangle', 3), ('tetrahedron', 4)):
        W = world(r)
        f = W.fn(BC + 'is_inside_' + nm)
        with r.section('inside ' + nm, f):
            w = [tm.sym('w%d' % i) for i in range(n - 1)]
            last = ONE
            for x in w:
                last = last - x
            got = W.ip.truth(W.call(f, *(w + [last])), W.st)
            want = TRUE
            for x in w + [last]:
                want = want & tm.le(ZERO, x)
            r.eq('inside the %s exactly when no coordinate is negative' % nm, got, want, f)
            w.append(tm.sym('w%d' % (n - 1)))
            got = W.ip.truth(W.call(f, *w), W.st)
            want = tm.le(sum(w, ZERO), ONE)
            for x in w:
                want = want & tm.le(ZERO, x)
            r.eq('numbers that add up to more than one are outside the %s' % nm, got, want, f, hooks=[lambda s, a: s.basic(a) * (.25 if s.seed % 3 else .5) if a.op == 'sym' else None])
    X = [x1, x2, x3, x4]
    W = world(r)
    ar = lambda *xs: [A(W, x) for x in xs]
    vol = dot(x4 - x1, cross(x2 - x1, x3 - x1))
    f = W.fn(TE + 'compute_signed_volume')
    with r.section('signed volume', f):
        r.eq('signed volume', W.call(f, *ar(*X)), vol / 6, f)
        r.eq('left orientation is negative volume', W.ip.truth(W.call(TE + 'is_left_orientation', *ar(*X)), W.st), tm.lt(vol, ZERO), f)
    f = W.fn(TE + 'compute_circumscribed_sphere')
    with r.section('circumscribed sphere', f):
        c, rad = W.call(f, *ar(*X))
        c = cells(W, c)
        for i in range(4):
            r.eq('circumscribed sphere passes through corner %d' % i, dot(c - X[i], c - X[i]), rad * rad, f, care=~tm.eq0(vol))
    f = W.fn(TE + 'compute_inscribed_sphere')
    with r.section('inscribed sphere', f):
        c, rad = W.call(f, *ar(*X))
        c = cells(W, c)
        pos = tm.lt(ZERO, vol)
        for q, (i, j, k) in enumerate(FACES):
            n = cross(X[j] - X[i], X[k] - X[i])
            dist = dot(X[i] - c, n) / norm(n)
            r.eq('inscribed sphere touches face %d from the inside' % q, dist, tm.absval(rad), f, care=pos)
    W = world(r)
    f = W.fn(TE + 'generate_sample_points')
    with r.section('sample points', f):
        for N in (2, 3, 5):
            S = instance(W, W.call(f, lift(N)), [tm.Sizes({})])
            want = {(i, j, k, N - 1 - i - j - k) for i in range(N) for j in range(N - i) for k in range(N - i - j)}
            got = {tuple(int(round(x * (N - 1))) for x in row) for row in S}
            r.fact('sample points of %d layers are the lattice points of the tetrahedron' % N, got == want and len(S) == len(want) and np.allclose(S.sum(1), 1), f,
                   '%d points' % len(S), how='random interpretation')
    from .rules_geom2 import interior
    interior(r)


# ---------------------------------------------------------------- bounding volumes
KD = 'rainbow.geometry.kdop.'
KB = 'rainbow.geometry.kdop_bvh.'
AB = 'rainbow.geometry.aabb.AABB'
BVH_SCHEMA = dict(RIGID_SCHEMA)
BVH_SCHEMA.update({
    ('KDOP', 'K'): 'f', ('KDOP', 'slabs'): ('coll', 'list', None, ('obj', KD + 'Interval')),
    ('Interval', 'lower'): 'f', ('Interval', 'upper'): 'f',
    ('Tree', 'root'): ('obj', KD + 'KDOP'), ('Tree', 'chunks'): ('coll', 'list', None, ('obj', KB + 'SubTree')),
    ('SubTree', 'nodes'): ('coll', 'list', None, ('obj', KB + 'Node')), ('SubTree', 'height'): 'f',
    ('Node', 'start'): 'f', ('Node', 'end'): 'f', ('Node', 'parent'): 'f', ('Node', 'volume'): ('obj', KD + 'KDOP'),
})


def bound(cells_):
    lo = hi = cells_[0]
    for x in cells_[1:]:
        lo, hi = tm.fmin(lo, x), tm.fmax(hi, x)
    return lo, hi


def slabs(W, k):
    """[(lower, upper)] of a KDOP object"""
    return [(W.get(x, 'lower'), W.get(x, 'upper')) for x in items(W, W.get(k, 'slabs'))]


def G01(r):
    """bounding volumes contain what they bound, overlap tests are exact, trees cover every element once"""
    env = tm.sym('env')
    W = world(r)
    f = W.fn(KD + 'get_direction_table')
    table_ = {}
    with r.section('directions', f):
        for K in (3, 4):
            M = instance(W, W.call(f, lift(K)), [])
            ok = M.shape == (K, 3) and all(np.linalg.norm(M[i]) > 0 for i in range(K)) and \
                all(np.linalg.norm(np.cross(M[i], M[j])) > 1e-9 for i in range(K) for j in range(i))
            r.fact('%d slab directions are distinct' % K, ok, f, 'directions %s' % M.tolist())
            r.fact('%d slab directions span space' % K, np.linalg.matrix_rank(M) == 3, f, 'directions %s' % M.tolist())
            table_[K] = M
    for K in (3, 4):
        if K not in table_:
            continue
        f = W.fn(KD + 'make')
        with r.section('make', f):
            for n in (1, 3, 4):
                X = [V('x%d' % i, 3) for i in range(n)]
                k = W.call(f, lift(K), A(W, arr([list(x) for x in X])), env)
                for j, (lo, hi) in enumerate(slabs(W, k)):
                    a, b = bound([dot(arr(table_[K][j].tolist()), x) for x in X])
                    r.eq('%d-DOP of %d vertices: lower bound %d is tight' % (K, n, j), lo, a - env, f)
                    r.eq('%d-DOP of %d vertices: upper bound %d is tight' % (K, n, j), hi, b + env, f)

        def vol(nm):
            k = W.new(KD + 'KDOP', lift(K))
            for j, s in enumerate(items(W, W.get(k, 'slabs'))):
                W.ip.setattr(s, 'lower', tm.sym('%sl%d' % (nm, j)), W.st)
                W.ip.setattr(s, 'upper', tm.sym('%su%d' % (nm, j)), W.st)
            return k
        f = W.fn(KD + 'union')
        with r.section('union', f):
            a, b = vol('a'), vol('b')
            u = W.call(f, a, b)
            for j, (lo, hi) in enumerate(slabs(W, u)):
                r.eq('union of %d-DOPs: lower bound %d' % (K, j), lo, tm.fmin(tm.sym('al%d' % j), tm.sym('bl%d' % j)), f)
                r.eq('union of %d-DOPs: upper bound %d' % (K, j), hi, tm.fmax(tm.sym('au%d' % j), tm.sym('bu%d' % j)), f)
            r.fact('union is a new %d-DOP' % K, u.oid not in (a.oid, b.oid), f, 'returns one of its arguments')
            for v, nm in ((a, 'a'), (b, 'b')):
                for j, (lo, hi) in enumerate(slabs(W, v)):
                    r.eq('union leaves its arguments alone %s%d' % (nm, j), lo + 2 * hi, tm.sym('%sl%d' % (nm, j)) + 2 * tm.sym('%su%d' % (nm, j)), f)
        f = W.fn(KD + 'overlap')
        with r.section('overlap', f):
            got = W.ip.truth(W.call(f, vol('a'), vol('b')), W.st)
            want = TRUE
            for j in range(K):
                want = want & tm.le(tm.sym('al%d' % j), tm.sym('bu%d' % j)) & tm.le(tm.sym('bl%d' % j), tm.sym('au%d' % j))
            hk = lambda s, a: (s.basic(tm.sym(a.args[0][0] + 'l' + a.args[0][2]).as_atom()) + abs(s.basic(a))) if a.op == 'sym' and a.args[0][:2] in ('au', 'bu') else None
            r.eq('%d-DOPs overlap exactly when all slabs do' % K, got, want, f, hooks=[hk])
    for nm in ('overlap', 'union'):
        W = world(r)
        f = W.fn(KD + nm)
        with r.section(nm, f):
            a, b = W.new(KD + 'KDOP', lift(3)), W.new(KD + 'KDOP', lift(4))
            try:
                W.call(f, a, b)
                r.fact('%s of different k-DOPs is refused' % nm, False, f, 'accepts volumes with different directions')
            except Dead:
                r.fact('%s of different k-DOPs is refused' % nm, True, f)
    aabb_checks(r)
    tree_checks(r, {K: M.tolist() for K, M in table_.items()})
    traversal_checks(r)


def aabb_checks(r):
    W = world(r)
    f = W.fn(AB + '.create_from_vertices')
    with r.section('aabb', f):
        X = [V('x%d' % i, 3) for i in range(4)]
        for n in (1, 3, 4):
            k = W.ip.call(f, [W.ip.find_class(AB), A(W, arr([list(x) for x in X[:n]]))], {}, W.st)
            for d in range(3):
                lo, hi = bound([x[d] for x in X[:n]])
                r.eq('box of %d vertices: lower corner [%d]' % (n, d), cells(W, W.get(k, 'min_point'))[d], lo, f)
                r.eq('box of %d vertices: upper corner [%d]' % (n, d), cells(W, W.get(k, 'max_point'))[d], hi, f)
    f = W.fn(AB + '.is_overlap')
    with r.section('aabb overlap', f):
        c = [V(n, 3) for n in ('al', 'au', 'bl', 'bu')]
        src = [A(W, x) for x in c]
        a, b = W.new(AB, src[0], src[1]), W.new(AB, src[2], src[3])
        r.fact('a box keeps its own corners', all(storage_(W.get(o, n)) not in [s.oid for s in src] for o in (a, b) for n in ('min_point', 'max_point')), f, 'shares the caller\'s arrays')

        def hk(s, x):
            if x.op == 'sym' and isinstance(x.args[0], str):
                if x.args[0][:2] in ('au', 'bu'):
                    return s.basic(tm.sym(x.args[0][0] + 'l' + x.args[0][2:]).as_atom()) + abs(s.basic(x))
                if x.args[0] == 'e':
                    return abs(s.basic(x)) * .2
        for e in (ZERO, tm.sym('e')):
            got = W.ip.truth(W.ip.call(f, [W.ip.find_class(AB), a, b] + ([] if e is ZERO else [e]), {}, W.st), W.st)
            want = TRUE
            for d in range(3):
                want = want & tm.le(c[0][d] - e, c[3][d] + e) & tm.le(c[2][d] - e, c[1][d] + e)
            r.eq('boxes overlap exactly when all extents do%s' % ('' if e is ZERO else ', each enlarged by the boundary'), got, want, f, hooks=[hk])
        for o, lo, hi in ((a, 0, 1), (b, 2, 3)):
            for d in range(3):
                r.eq('the overlap test leaves the boxes alone', cells(W, W.get(o, 'min_point'))[d] + 2 * cells(W, W.get(o, 'max_point'))[d], c[lo][d] + 2 * c[hi][d], f)


def tree_nodes(W, sub):
    out = []
    for n in items(W, W.get(sub, 'nodes')):
        out.append((n,) + tuple(num(W.get(n, x)) for x in ('parent', 'start', 'end')))
    return out


def num(x):
    if isinstance(x, (int, float)):
        return int(x)
    v = x.const() if isinstance(x, T) else None
    if v is None:
        raise Unsupported('index %s is not known' % (x,))
    return int(v)


def tree_checks(r, dirs):
    """structure and volumes of trees of a few sizes; inductive step for every size"""
    env = tm.sym('env')
    for M, N, K in ((1, 1, 3), (1, 3, 3), (2, 3, 3), (5, 3, 3), (4, 7, 3), (7, 4, 3), (6, 5, 3), (3, 2, 3), (5, 15, 3), (2, 3, 4)):
        W = world(r, schema=BVH_SCHEMA)
        W.ip.maxrec = 8
        f = W.fn(KB + 'make_bvh')
        tag = '%d elements in subtrees of %d nodes' % (M, N)
        with r.section('tree of ' + tag, f, total=True):
            n = M + 2
            X = [V('x%d' % i, 3) for i in range(n)]
            T_ = [[i, i + 1, i + 2] for i in range(M)]
            t = W.call(f, A(W, arr([list(x) for x in X])), A(W, arr(T_)), lift(K), lift(N), env)
            for pas in ('', ' after refitting'):
                if pas:
                    X = [V('y%d' % i, 3) for i in range(n)]
                    W.call(KB + 'refit_bvh', A(W, arr([list(x) for x in X])), A(W, arr(T_)), t, lift(K), env)
                    f = W.fn(KB + 'refit_bvh')
                seen, bad, volbad = [], None, None
                boxes = []
                for sub in items(W, W.get(t, 'chunks')):
                    nodes = tree_nodes(W, sub)

                    def walk(i, parent):
                        nonlocal bad
                        nd, par, a, b = nodes[i]
                        if par != parent:
                            bad = bad or 'node %d names %d as its parent instead of %d' % (i, par, parent)
                        if a == b:
                            seen.append(a)
                            mine, h = {a}, 0
                        else:
                            if b != a + 1 or not 0 < a < len(nodes) - 1:
                                raise Unsupported('children are not consecutive')
                            (l, hl), (m, hm) = walk(a, i), walk(b, i)
                            mine, h = l | m, max(hl, hm) + 1
                        boxes.append((nd, mine, 'node %d' % i))
                        return mine, h
                    _, h = walk(0, -1)
                    ht = W.get(sub, 'height')
                    r.fact('tree of %s records its height%s' % (tag, pas), not isinstance(ht, tuple) and num(ht) == h, f, 'height %s instead of %d' % (ht, h))
                r.fact('tree of %s covers every element exactly once%s' % (tag, pas), sorted(seen) == list(range(M)), f, 'leaves hold %s' % sorted(seen))
                r.fact('tree of %s has consistent parents%s' % (tag, pas), not bad, f, bad)
                vols = [(W.get(nd, 'volume'), mine, what) for nd, mine, what in boxes] + [(W.get(t, 'root'), set(range(M)), 'the root')]
                for k, mine, what in vols:
                    pts = [X[v] for e in sorted(mine) for v in T_[e]]
                    for j, (lo, hi) in enumerate(slabs(W, k)):
                        a, b = bound([dot(arr(dirs[K][j]), x) for x in pts])
                        r.eq('%s bounds its elements%s: lower' % (what, pas), lo, a - env, f, samples=6)
                        r.eq('%s bounds its elements%s: upper' % (what, pas), hi, b + env, f, samples=6)
    # inductive step of the construction for symbolic ranges
    W = world(r, schema=BVH_SCHEMA)
    q = KB + '_make_sub_tree'
    f = W.fn(q)
    with r.section('construction step', f):
        import copy
        calls = []

        def model(ip, st, args, kw):
            if kw:
                raise Unsupported('keywords')
            calls.append((args, st.pc))
            return (tm.app('height', *args[2:4]), args[1] + 2 * (args[3] - args[2]))
        W.ip.models[q] = model
        g = copy.copy(f)
        g.qual = q + '!'
        sub = W.root(KB + 'SubTree', 'stree')
        p, fr, a, b = [tm.sym('int:' + x) for x in ('p', 'free', 'first', 'last')]
        out = W.call(g, p, fr, a, b, sub)

        def ints(s, x):
            if x.op == 'sym' and str(x.args[0]).startswith('int:'):
                u = int(abs(s.basic(x)) * 7)
                if x.args[0] == 'int:last':
                    return float(int(abs(s.basic(a.as_atom())) * 7) + u)
                return float(u)
        hk = [ints]
        split = tm.lt(a, b)
        if len(calls) != 2:
            raise Unsupported('construction does not recurse twice')
        (A1, g1), (A2, g2) = calls
        r.eq('a range of several elements is split', tm.ite(g1 & g2, ONE, ZERO), tm.ite(split, ONE, ZERO), f, hooks=hk, care=tm.le(a, b))
        lo = [A1, A2]
        r.eq('left half starts at the first element', A1[2], a, f, care=split, hooks=hk)
        r.eq('right half ends at the last element', A2[3], b, f, care=split, hooks=hk)
        r.eq('the halves are adjacent', A2[2], A1[3] + 1, f, care=split, hooks=hk)
        r.holds('the left half is not empty', tm.le(A1[2], A1[3]), f, care=split, hooks=hk)
        r.holds('the right half is not empty', tm.le(A2[2], A2[3]), f, care=split, hooks=hk)
        r.eq('left child is the next free node', A1[0], fr, f, care=split, hooks=hk)
        r.eq('right child is the node after it', A2[0], fr + 1, f, care=split, hooks=hk)
        r.eq('left subtree uses the nodes after the children', A1[1], fr + 2, f, care=split, hooks=hk)
        r.eq('right subtree uses the nodes after the left subtree', A2[1], fr + 2 + 2 * (A1[3] - A1[2]), f, care=split, hooks=hk)
        r.eq('the next free node follows both subtrees', out[1], fr + 2 * (b - a), f, care=tm.le(a, b), hooks=hk)
        r.eq('height of an inner node', out[0], tm.fmax(tm.app('height', *A1[2:4]), tm.app('height', *A2[2:4])) + 1, f, care=split, hooks=hk)
        nodes = W.get(sub, 'nodes')
        for x, fld, want, c in ((p, 'start', fr, split), (p, 'end', fr + 1, split), (fr, 'parent', p, split), (fr + 1, 'parent', p, split),
                                (p, 'start', a, tm.eq0(a - b)), (p, 'end', a, tm.eq0(a - b))):
            ev = [e for e in W.ip.events if e.kind == 'setattr' and e.data[1] == fld and getattr(e.data[0], 'lazy', None)]
            got = None
            for e in ev:
                ix = e.data[0].lazy[2]
                ix = ix if isinstance(ix, T) else lift(ix)
                w = e.data[3] if isinstance(e.data[3], T) else lift(e.data[3])
                same = tm.eq0(ix - x) & e.guard
                got = tm.ite(same, w, got if got is not None else tm.sym('unset'))
            cc = c & ~tm.eq0(p - fr) & ~tm.eq0(p - fr - 1)
            if c is not split:
                cc, got = ~tm.eq0(p - fr) & ~tm.eq0(p - fr - 1), got if got is None else tm.subst(got, {b.as_atom(): a})
            r.eq('construction sets %s of node %s' % (fld, 'parent' if x is p else 'child'), got if got is not None else tm.sym('unset'), want, f, care=cc, hooks=hk)


def traversal_checks(r):
    W = world(r, schema=BVH_SCHEMA)
    f = W.fn(KB + '_iterative_sub_tree_traversal')
    with r.section('traversal step', f):
        pushes, pops, results = [], [], []
        ov = tm.pred('overlapping')

        def overlap(ip, st, args, kw):
            pops.append(('test', args, st.pc))
            return ov
        W.ip.models[KD + 'overlap'] = overlap
        A_, B_ = W.root(KB + 'SubTree', 'sa'), W.root(KB + 'SubTree', 'sb')
        na, nb = W.root(KB + 'Node', 'na'), W.root(KB + 'Node', 'nb')
        state = {'n': 0, 'pair': None}

        def push(ip, st, args, kw):
            state['pair'] = isinstance(args[0], tuple)
            pushes.append((args[0], st.pc, tuple(ip.loopctx), ip.quiet))
            return None

        sides = {}
        for nm, sub in (('a', A_), ('b', B_)):
            sides[str(W.ip.np.getitem(W.get(sub, 'nodes'), lift(5), W.st).lazy[1])] = nm

        def side(o):
            return sides.get(str(o.lazy[1])) if isinstance(o, Obj) and o.lazy else None

        def turned():
            """the worklist holds the pairs as (node of B, node of A)"""
            x = [o for p in pushes if not p[2] for o in (p[0] if isinstance(p[0], tuple) else (p[0],))]
            return len(x) > 1 and (side(x[0]), side(x[1])) == ('b', 'a')

        def pop(ip, st, args, kw, last=False):
            if args:
                raise Unsupported('pop of an index')
            two = (nb, na) if turned() else (na, nb)
            if state['pair']:
                state['n'] = 0
                return two
            state['n'] += 1
            return two[(state['n'] + 1 + last) % 2]
        popr = Native(lambda ip, st, args, kw: pop(ip, st, args, kw, True), 'pop')
        q = NObj('Q', {'append': Native(push, 'append'), 'popleft': Native(pop, 'popleft'), 'pop': popr}, tm.pred('pending'))
        q.attrs['__len__'] = Native(lambda ip, st, args, kw: ip.b2t(q.truth), '__len__')

        def deque(ip, st, args, kw):
            for x in (items(W, args[0]) if args else []):
                push(ip, st, [x], {})
            return q
        W.ip.models['collections.deque'] = deque
        res = NObj('results', {'append': Native(lambda ip, st, args, kw: results.append((args[0], st.pc, tuple(ip.loopctx))), 'append')})
        W.call(f, A_, B_, res)
        # keep what the last pass over the loop body recorded
        loops = [l for l in W.ip.loops if l.fn is not None and l.fn.qual == f.qual]
        outer = loops[-1]
        body = [x for x in pushes if x[2] and x[2][0] is outer]
        first = [x for x in pushes if not x[2]]
        out = [x for x in results if x[2] and x[2][0] is outer]
        base = outer.entry.pc
        sz = {}
        fld = lambda n, x: W.get(n, x)
        leaf = lambda n: tm.eq0(fld(n, 'start') - fld(n, 'end'))

        def ids(v):
            return v if isinstance(v, tuple) else (v,)

        def ident(o, s):
            if o is na or o is nb:
                return 'A' if o is na else 'B'
            return (str(o.lazy[1]), s.integer(o.lazy[2])) if isinstance(o, Obj) and o.lazy and len(o.lazy) > 2 and isinstance(o.lazy[2], T) else \
                ((str(o.lazy[1]), num(o.lazy[2])) if isinstance(o, Obj) and o.lazy and len(o.lazy) > 2 else None)
        names = sides

        def replay(seq, hooks):
            """items pushed in one interpretation, in program order"""
            got = []
            i = 0

            def run(level, items, env):
                j = 0
                while j < len(items):
                    it = items[j]
                    lp = it[2]
                    if len(lp) > level:
                        grp = [it]
                        j += 1
                        while j < len(items) and len(items[j][2]) > level and items[j][2][level] is lp[level]:
                            grp.append(items[j])
                            j += 1
                        s = tm.Sample(1, hooks=hooks + [tm.Sizes(env)])
                        n = s.integer(lp[level].n)
                        for v in range(n):
                            run(level + 1, grp, {**env, lift(lp[level].k): v})
                    else:
                        s = tm.Sample(1, hooks=hooks + [tm.Sizes(env)])
                        if s.B(it[1]):
                            for o in ids(it[0]):
                                if isinstance(o, T):
                                    got.append(s.T(o))
                                else:
                                    x = ident(o, s)
                                    got.append(x if isinstance(x, str) or x is None else (names.get(x[0], x[0]), x[1]))
                        j += 1
            run(1, seq, {})
            return got

        flip = turned()

        def pairs(l):
            return [(y, x) if flip else (x, y) for x, y in zip(l[::2], l[1::2])]
        atoms = [fld(na, 'start'), fld(na, 'end'), fld(nb, 'start'), fld(nb, 'end')]
        for olap in (True, False):
            for la in (True, False):
                for lb in (True, False):
                    vals = dict(zip(atoms, (5, 5 if la else 6, 9, 9 if lb else 10)))
                    hooks = [tm.Sizes({**vals, ov.v: olap, q.truth.v: True})]
                    l = replay(out, hooks)
                    got, res_ = pairs(replay(body, hooks)), list(zip(l[::2], l[1::2]))
                    what = 'overlapping %s and %s' % ('leaf' if la else 'inner node', 'leaf' if lb else 'inner node') if olap else 'separated nodes (%s, %s)' % (la, lb)
                    want, wres = [], []
                    if olap and la and lb:
                        wres = [(5.0, 9.0)]
                    elif olap:
                        want = [(x, y) for x in (['A'] if la else [('a', 5), ('a', 6)]) for y in (['B'] if lb else [('b', 9), ('b', 10)])]
                    r.fact('traversal visits exactly the child pairs of %s' % what, sorted(map(str, got)) == sorted(map(str, want)), f, 'visits %s instead of %s' % (got, want), how='random interpretation')
                    r.fact('traversal reports exactly the element pair of %s' % what, res_ == wres, f, 'reports %s instead of %s' % (res_, wres), how='random interpretation')
        start = [ident(o, tm.Sample(1)) for x in first for o in ids(x[0])]
        start = [(names.get(x[0]), x[1]) if isinstance(x, tuple) else x for x in start]
        r.fact('traversal starts at the two roots', sorted(map(str, start)) == ["('a', 0)", "('b', 0)"], f, 'starts with %s' % (start,))
        tests = [x for x in pops if x[0] == 'test']
        r.fact('traversal tests the volumes of the visited pair', bool(tests) and all({getattr(a, 'oid', None) for a in t[1]} == {fld(na, 'volume').oid, fld(nb, 'volume').oid} for t in tests), f, 'tests other volumes')
    traversal_pairs(r)


def traversal_pairs(r):
    """whole traversals of constant trees, against all pairs of elements"""
    import random
    from fractions import Fraction
    dirs = {3: [(1, 0, 0), (0, 1, 0), (0, 0, 1)], 4: [(1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1)]}
    rnd = random.Random(11)

    def points(M, spread, off):
        # small triangles on a line along one direction, in eighths so that boxes touch
        return [[off[j] + Fraction(rnd.randint(-8, 8), 8) + (spread[j] * (i // 3)) for j in range(3)] for i in range(3 * M)]
    near = lambda M, o=0: points(M, (1, 0, 0), (o, 0, 0))
    cases = [('one element each', 3, (1, 1), (near(1), near(1))), ('separated objects', 3, (3, 3), (near(3), near(3, 40))),
             ('several subtrees', 3, (3, 3), (near(5), points(7, (0, 1, 0), (2, -3, 0)))), ('subtrees of one node', 3, (1, 1), (near(3), near(4, 1))),
             ('subtrees of different size', 3, (7, 3), (near(9), points(4, (-2, 0, 0), (7, 0, 0)))), ('one large subtree', 3, (15, 15), (near(6), near(5, 1))),
             ('diagonal directions', 4, (3, 7), (near(5), points(6, (1, -1, 0), (1, 1, 0)))), ('one element against many', 3, (3, 3), (near(1, 2), near(6))), ('many against one element', 3, (7, 1), (near(6), near(1, 2)))]
    for tag, K, N, (P, Q) in cases:
        W = world(r, schema=BVH_SCHEMA)
        W.ip.maxrec = 12
        f = W.fn(KB + 'traversal')
        with r.section('traversal of ' + tag, f, total=True):
            tris = [[[3 * i, 3 * i + 1, 3 * i + 2] for i in range(len(X) // 3)] for X in (P, Q)]
            ar = lambda X: A(W, arr([[lift(c) for c in x] for x in X]))
            tr = [W.call(KB + 'make_bvh', ar(X), A(W, arr(t)), lift(K), lift(n), lift(0)) for X, t, n in zip((P, Q), tris, N)]
            for pas in ('', ' after refitting'):
                if pas:
                    Q = [[c + Fraction(j, 8) - 1 for j, c in enumerate(x)] for x in reversed(Q)]
                    W.call(KB + 'refit_bvh', ar(Q), A(W, arr(tris[1])), tr[1], lift(K), lift(0))
                ext = [[[(min(sum(d[j] * X[v][j] for j in range(3)) for v in t), max(sum(d[j] * X[v][j] for j in range(3)) for v in t)) for d in dirs[K]] for t in ts] for X, ts in zip((P, Q), tris)]
                want = sorted((i, j) for i, x in enumerate(ext[0]) for j, y in enumerate(ext[1]) if all(a[0] <= b[1] and b[0] <= a[1] for a, b in zip(x, y)))
                got = sorted(tuple(num(y) for y in items(W, x)) for x in items(W, W.call(f, *tr)))
                r.fact('traversal reports every overlapping pair exactly once (%s%s)' % (tag, pas), got == want, f, 'missing %s, wrong %s' % ([x for x in want if x not in got][:3], [x for x in got if got.count(x) > want.count(x)][:3]))
