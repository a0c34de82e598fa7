"""Geometry: signed distance grids, curvature, convex hulls, vertex to tetrahedron lookup."""
from .lib import *
from .rules_geom import GR, SM, VM, TE, I_, J_, K_, box_hook, grid, table, pos_syms_

MC = 'rainbow.geometry.mean_curvature.'
MESH_F = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3), (3, 4, 1)]


def lo_hi(P):
    lo, hi = list(P[0]), list(P[0])
    for p in P[1:]:
        for d in range(3):
            lo[d], hi[d] = tm.fmin(lo[d], p[d]), tm.fmax(hi[d], p[d])
    return lo, hi


def G06(r):
    """signed distance fields cover the mesh and store the distance of every node"""
    f0 = f = gone(world(r), GR + 'create_signed_distance', r)
    bnd = tm.sym('boundary')

    def run(boundary):
        W = world(r)
        log = []

        def sd(ip, st, a, kw):
            a = list(a) + [kw[k] for k in ('P', 'V', 'F') if k in kw]
            P = a[0]
            log.append((P, ip.cells(a[1], st), ip.cells(a[2], st)))
            n = P.shape[0]
            vals = ip.sarr(lambda ix: tm.app('dist_', *[lift(ip.sel(P, (ix[0], lift(d)), st)) for d in range(3)]), (n,), st)
            return (vals, ip.sarr(lambda ix: tm.app('face_', *ix), (n,), st), ip.sarr(lambda ix: tm.app('close_', *ix), (n, 3), st))
        W.ip.models['igl.signed_distance'] = sd
        P = V('V', (7, 3))
        G = W.call(W.fn(GR + 'create_signed_distance'), A(W, P), A(W, arr(MESH_F)), I_, J_, K_, *boundary)
        return W, G, P, log
    for tag, args, b in (('given boundary', (bnd,), bnd), ('default boundary', (), tm.lift(0.5))):
        with r.section('field, ' + tag, f):
            W, G, P, log = run(args)
            pc = W.st.pc
            ok = TRUE
            for n in (I_, J_, K_):
                ok = ok & tm.le(lift(2), n)
            if args:
                ok = ok & tm.le(ZERO, bnd)
            hk = dict(hooks=[lambda s, a: s.basic(a) if a.op == 'sym' and a.args[0] == 'boundary' else box_hook(s, a) if a.op == 'sym' and a.args[0] in 'IJK' else None], samples=12)
            r.eq('a field is made exactly for at least two nodes per axis and no negative boundary (%s)' % tag, pc, ok, f, **hk)
            lo, hi = lo_hi(P)
            eqv(r, 'the box starts the boundary width below the mesh (%s)' % tag, W, W.get(G, 'min_coord'), arr([x - b for x in lo]), f, care=ok, **hk)
            eqv(r, 'the box ends the boundary width above the mesh (%s)' % tag, W, W.get(G, 'max_coord'), arr([x + b for x in hi]), f, care=ok, **hk)
            for n, w in zip('IJK', (I_, J_, K_)):
                r.eq('number of nodes %s (%s)' % (n, tag), W.get(G, n), w, f, **hk)
            if r.fact('one distance query (%s)' % tag, len(log) == 1, f, '%d queries' % len(log)):
                eqv(r, 'distances are to the vertices of the mesh (%s)' % tag, W, A(W, log[0][1]), P, f)
                eqv(r, 'distances are to the faces of the mesh (%s)' % tag, W, A(W, log[0][2]), arr(MESH_F), f)
            sizes = [(2, 3, 4), (4, 2, 3), (3, 3, 2)]
            h = [(hi[d] - lo[d] + 2 * b) / ((I_, J_, K_)[d] - 1) for d in range(3)]
            i, j, k = [tm.sym(x) for x in 'ijk']
            vals = W.get(G, 'values')
            for sz in sizes:
                s = tm.Sample(5, hooks=[tm.Sizes(dict(zip((I_, J_, K_), sz)), ), pos_syms_('boundary')])
                bad = None
                for ix in np.ndindex(*sz):
                    got = W.meth(G, 'get_node_value', *[lift(x) for x in ix])
                    want = tm.app('dist_', *[lo[d] - b + h[d] * ix[d] for d in range(3)])
                    g, w = s.T(got), s.T(want)
                    if abs(g - w) > 1e-9 * (1 + abs(w)):
                        bad = 'grid %s, node %s' % (sz, ix)
                r.fact('node %s of the field holds the distance at its own coordinates (%s)' % (sz, tag), bad is None, f, 'another value at ' + str(bad), how='random interpretation')


    curvature(r)
    hulls(r)
    circulator(r)
    interior(r)


def stencil(h, d):
    """central differences of the field d(offset) with spacing h"""
    e = np.eye(3, dtype=int)
    first = [(d(*e[a]) - d(*-e[a])) / (2 * h[a]) for a in range(3)]
    second = [[None] * 3 for _ in range(3)]
    for a in range(3):
        second[a][a] = (d(*e[a]) - 2 * d(0, 0, 0) + d(*-e[a])) / (h[a] * h[a])
        for b in range(a):
            second[a][b] = second[b][a] = (d(*(e[a] + e[b])) - d(*(e[a] - e[b])) - d(*(e[b] - e[a])) + d(*(-e[a] - e[b]))) / (4 * h[a] * h[b])
    return first, second


def curvature(r):
    W = world(r)
    f = W.fn(MC + 'create_from_sdf')
    with r.section('curvature', f):
        G, mn, mx = grid(W)
        before = W.get(G, 'values')
        Kp = W.call(f, G)
        for x, w in (('min_coord', mn), ('max_coord', mx)):
            eqv(r, 'the curvature grid has the box of the field (%s)' % x, W, W.get(Kp, x), w, f, hooks=[box_hook])
        for x, w in zip('IJK', (I_, J_, K_)):
            r.eq('the curvature grid has the nodes of the field (%s)' % x, W.get(Kp, x), w, f, hooks=[box_hook])
        r.fact('the field is left alone', W.get(G, 'values') is before or storage_of(W.get(G, 'values')) == storage_of(before), f, 'values replaced')
        vals = W.get(Kp, 'values')
        r.fact('curvature is not written over the field', storage_of(vals) != storage_of(before), f, 'shares the values of the field')
        for sz in ((3, 4, 5), (4, 3, 3), (5, 4, 4)):
            bad = None
            clipped = set()
            for seed in range(4):
                s = tm.Sample(seed, hooks=[tm.Sizes(dict(zip((I_, J_, K_), sz))), scaled(seed), box_hook])
                h = [s.T(mx[d] - mn[d]) / (sz[d] - 1) for d in range(3)]
                top = 1 / min(h)
                for ix in np.ndindex(*sz):
                    lin = ix[0] + sz[0] * (ix[1] + sz[1] * ix[2])
                    got = s.T(W.ip.sel(vals, (lift(lin),), W.st))
                    if any(x == 0 or x == n - 1 for x, n in zip(ix, sz)):
                        want = 0.0
                    else:
                        d = lambda a, b, c: s.T(tm.app('phi_', lift((ix[0] + a) + sz[0] * ((ix[1] + b) + sz[1] * (ix[2] + c)))))
                        g, H = stencil(h, d)
                        g, H = np.array(g), np.array(H)
                        l = np.linalg.norm(g)
                        l = 1.0 if l < 0.5 else l
                        raw = (np.trace(H) * (g @ g) - g @ H @ g) / l ** 3
                        want = min(max(raw, -top), top)
                        clipped.add(0 if raw == want else 1 if raw > 0 else -1)
                    if abs(got - want) > 1e-7 * (1 + abs(want)):
                        bad = bad or 'grid %s, node %s: %g instead of %g' % (sz, ix, got, want)
            r.fact('curvature of the nodes of a %s grid is the divergence of the normal by central differences, bounded by the resolution' % (sz,), bad is None, f, bad, how='random interpretation')


def scaled(seed):
    """field values small enough that some curvatures stay below the bound of the grid and some do not"""
    def hk(s, a):
        if a.op == 'app' and a.args[0] == 'phi_':
            return [0.08, 0.4, 1.0, 3.0][seed % 4] * s.basic(a)
    return hk


def storage_of(v):
    return getattr(v, 'oid', None)


# octahedron with two interior points; faces in arbitrary orientation, corners numbered as in the cloud
CLOUDS = [
    ('octahedron', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (-1, 0, 0), (.2, .1, .1), (0, -1, 0), (0, 0, 1), (0, 0, -1)], [1, 2, 3, 5, 6, 7],
     [(1, 2, 6), (2, 3, 6), (6, 5, 3), (5, 1, 6), (1, 2, 7), (7, 3, 2), (3, 5, 7), (1, 5, 7)]),
    ('tetrahedron', [(3, 3, 3), (4, 3, 3), (3, 5, 3), (3.2, 3.3, 3.2), (3, 3, 7)], [4, 0, 2, 1], [(4, 0, 1), (0, 2, 1), (2, 0, 4), (1, 2, 4)]),
    ('far away', [(103, 3, -3), (104, 3, -3), (103, 5, -3), (103, 3, -2)], [0, 1, 2, 3], [(0, 1, 2), (0, 2, 3), (1, 0, 3), (1, 2, 3)]),
]


def hulls(r):
    for name, P, hv, simp in CLOUDS:
        W = world(r)
        f = W.fn(SM + 'create_convex_hull')
        with r.section('convex hull of a ' + name, f):
            def hook(s, a):
                if a.op == 'sym' and a.args[0].startswith('p['):
                    i, d = a.args[0][2:-1].split(',')
                    return P[int(i)][int(d)] + 0.02 * s.basic(a)
            X = V('p', (len(P), 3))
            pts = A(W, X)
            asked = []

            def ch(ip, st, a, kw):
                asked.append(ip.cells(a[0], st))
                return NObj('hull', {'points': ip.arr(ip.cells(a[0], st), st), 'vertices': ip.arr(arr(hv), st), 'simplices': ip.arr(arr(simp), st)})
            W.ip.models['scipy.spatial.ConvexHull'] = ch
            out = W.ip.unpack(W.call(f, pts), 2, W.st) if hasattr(W.ip, 'unpack') else W.ip.np.unpack(W.call(f, pts), 2, W.st)
            eqv(r, 'the hull of exactly the given points is taken (%s)' % name, W, A(W, asked[0]), X, f)
            V_ = W.ip.cells(out[0], W.st)
            T_ = W.ip.cells(out[1], W.st)
            eqv(r, 'the vertices of the hull (%s)' % name, W, out[0], arr([X[i] for i in hv]), f)
            if not r.fact('one triangle for every face of the hull (%s)' % name, T_.shape == (len(simp), 3), f, 'shape %s' % (T_.shape,)):
                continue
            for seed in range(3):
                s = tm.Sample(seed, hooks=[hook])
                pv = np.array([[s.T(x) for x in row] for row in V_])
                t = np.array([[int(round(s.T(x))) for x in row] for row in T_])
                r.fact('triangles are the faces of the hull in its own numbering (%s, %d)' % (name, seed),
                       sorted(tuple(sorted(hv[i] for i in row)) for row in t) == sorted(tuple(sorted(x)) for x in simp), f, 'other faces', how='random interpretation')
                c = pv.mean(0)
                out_ = [np.dot(np.cross(pv[b] - pv[a], pv[d] - pv[a]), pv[a] - c) > 0 for a, b, d in t]
                r.fact('every triangle is ordered counter clockwise seen from outside (%s, %d)' % (name, seed), all(out_), f,
                       'triangles %s face inwards' % [i for i, x in enumerate(out_) if not x], how='random interpretation')


def circulator(r):
    cases = [[(0, 1, 2, 3)], [(4, 1, 2, 0), (3, 0, 4, 2), (5, 4, 3, 0)], [(2, 3, 5, 6), (5, 6, 0, 2), (0, 2, 3, 5), (6, 0, 5, 3), (1, 0, 2, 6)]]
    for n, Ts in enumerate(cases):
        W = world(r)
        f = W.fn(VM + 'VertexTetrahedronCirculator.tetrahedra')
        with r.section('vertex to tetrahedra %d' % n, f):
            nv = max(max(t) for t in Ts) + 1
            C = W.new(VM + 'VertexTetrahedronCirculator', A(W, V('x', (nv, 3))), A(W, arr(Ts)))
            for v in range(nv):
                got = W.ip.cells(W.meth(C, 'tetrahedra', lift(v)), W.st).ravel()
                got = [x.const() for x in got]
                want = [e for e, t in enumerate(Ts) if v in t]
                r.fact('mesh %d: vertex %d is in exactly these tetrahedra' % (n, v), None not in got and sorted(int(x) for x in got) == want, f, '%s instead of %s' % (got, want))


def interior(r):
    W = world(r)
    f = W.fn(TE + 'generate_interior_sample_points')
    with r.section('interior sample points', f):
        for N in (3, 4, 5, 6):
            S = instance(W, W.call(f, lift(N)), [tm.Sizes({})])
            want = {(i, j, k, N - 1 - i - j - k) for i in range(1, N) for j in range(1, N) for k in range(1, N) if N - 1 - i - j - k > 0}
            got = {tuple(int(round(x * (N - 1))) for x in row) for row in S}
            r.fact('interior points of %d layers are the lattice points strictly inside' % N, got == want and len(S) == len(want), f, '%s' % sorted(got), how='random interpretation')
