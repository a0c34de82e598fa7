"""Soft body simulator: collision detection."""
from .lib import *
from .rules_soft import *
from .rules_soft import SB, CDT

GR = 'rainbow.geometry.grid3.'
BV = 'rainbow.geometry.kdop_bvh.'


def orient(a, b, c, d):
    return det3(arr([b - a, c - a, d - a]))


def crosses(p, q, t):
    """the segment pq meets the triangle t (general position)"""
    a, b, c = t
    s1, s2 = orient(a, b, c, p), orient(a, b, c, q)
    v = [orient(p, q, a, b), orient(p, q, b, c), orient(p, q, c, a)]
    pos = tm.le(ZERO, v[0]) & tm.le(ZERO, v[1]) & tm.le(ZERO, v[2])
    neg = tm.le(v[0], ZERO) & tm.le(v[1], ZERO) & tm.le(v[2], ZERO)
    return tm.le(s1 * s2, ZERO) & (pos | neg)


def bary(p, x):
    """barycentric coordinates of x in the tetrahedron p"""
    d = orient(p[0], p[1], p[2], p[3])
    return arr([orient(x, p[1], p[2], p[3]) / d, orient(p[0], x, p[2], p[3]) / d, orient(p[0], p[1], x, p[3]) / d, orient(p[0], p[1], p[2], x) / d])


def S06(r):
    """contacts between soft bodies"""
    predicates(r)
    transforms(r)
    contacts(r)
    pipeline(r)
    hashing(r)
    deepest(r)


def predicates(r):
    W = world(r)
    f = W.fn(CDT + '_triangle_intersection')
    with r.section('triangle intersection', f):
        P, Q = V('P', (3, 3)), V('Q', (3, 3))
        got = W.ip.truth(W.call(f, A(W, P), A(W, Q)), W.st)
        want = FALSE
        for S_, T_ in ((P, Q), (Q, P)):
            for i in range(3):
                want = want | crosses(S_[i], S_[(i + 1) % 3], T_)
        from itertools import combinations
        general = TRUE
        for q in combinations(list(P) + list(Q), 4):
            general = general & tm.lt(tm.lift(.001), tm.absval(orient(*q)))
        r.eq('two triangles intersect exactly when an edge of one passes through the other', got, want, f, care=general, samples=300)
        back = W.ip.truth(W.call(f, A(W, Q), A(W, P)), W.st)
        r.eq('intersection does not depend on the order', back, got, f, care=general, samples=200)
    W = world(r)
    f = W.fn(CDT + '_is_share_vertex')
    with r.section('shared vertices', f):
        P, Q = V('P', (3, 3)), V('Q', (3, 3))
        got = W.ip.truth(W.call(f, A(W, P), A(W, Q)), W.st)
        want = FALSE
        for p in P:
            for q in Q:
                e = TRUE
                for i in range(3):
                    e = e & tm.eq0(p[i] - q[i])
                want = want | e
        r.eq('triangles share a vertex exactly when two corners coincide', got, want, f, hooks=[merge_hook], samples=300)


def merge_hook(s, a):
    """interpretations in which whole corners, or single coordinates, of the two triangles coincide"""
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('Q['):
        i, j = eval(a.args[0][1:])
        k = s.seed % 7
        if k < 3 and (i == k or s.seed % 2):
            return s.basic(tm.sym('P[%d, %d]' % ((i + s.seed) % 3, j)).as_atom()) if j != s.seed % 5 else s.basic(tm.sym('Q[%d, %d]' % (i, j)).as_atom())
        if k == 4 or k == 5:
            return s.basic(tm.sym('P[%d, %d]' % ((i + s.seed) % 3, j)).as_atom())
    return None


def tetra_hook(*names):
    """interpretations in which the named 4x3 arrays are well shaped tetrahedra"""
    base = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]

    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str):
            for n in names:
                if a.args[0].startswith(n + '['):
                    i, j = eval(a.args[0][len(n):])
                    return base[i][j] + .2 * max(-1.0, min(1.0, s.basic(a)))
        return None
    return hk


def transforms(r):
    """points move between world and material space with their barycentric coordinates, normals with the inverse transpose of the deformation gradient"""
    hk = [tetra_hook('XA', 'XB', 'X0')]
    W = world(r)
    f = W.fn(CDT + '_xform_triangle_to_model_space')
    with r.section('triangle to material space', f):
        P, X, X0 = V('P', (3, 3)), V('XB', (4, 3)), V('X0', (4, 3))
        aP = A(W, P)
        got = W.call(f, aP, A(W, X), A(W, X0))
        eqv(r, 'a triangle moves to material space with its barycentric coordinates', W, got, arr([matvec(X0.T, bary(X, p)) for p in P]), f, hooks=hk)
        eqv(r, 'moving a triangle leaves its world coordinates alone', W, aP, P, f)
    W = world(r)
    f = W.fn(CDT + '_xform_contact_to_world')
    with r.section('contact to world space', f):
        p, n, XA, XB, X0 = V('p', 3), V('n', 3), V('XA', (4, 3)), V('XB', (4, 3)), V('X0', (4, 3))
        q, m, oA, oB = W.ip.np.unpack(W.call(f, A(W, p), A(W, n), A(W, XA), A(W, XB), A(W, X0)), 4, W.st)
        wB = bary(X0, p)
        x = matvec(XB.T, wB)
        eqv(r, 'coordinates of the contact in the tetrahedron of the field', W, oB, wB, f, hooks=hk)
        eqv(r, 'a contact moves to world space with its barycentric coordinates', W, q, x, f, hooks=hk)
        eqv(r, 'coordinates of the contact in the other tetrahedron', W, oA, bary(XA, x), f, hooks=hk)
        G = [(X0[i + 1] - X0[0], XB[i + 1] - XB[0]) for i in range(3)]
        mc = cells(W, m)
        # covariance: n . (material edge) = m . (world edge) for all three edges
        for i, (e0, e) in enumerate(G):
            r.eq('the normal stays normal to the deformed surface [%d]' % i, dot(mc, e), dot(n, e0), f, hooks=hk)


def contact_scene(W, which=(0, 2)):
    sc = Scene(W, which)
    for k in range(len(which)):
        sf, ow = [], []
        for e, t in enumerate(sc.T(k)):
            for v, q in ((0, (1, 2, 3)), (1, (0, 3, 2))):
                sf.append([t[a] for a in q])
                ow.append([e, v])
        sc.put(k, 'surface', ints(W, sf))
        sc.put(k, 'owners', ints(W, ow))
        sc.put(k, 'grid', NObj('grid' + sc.nm[k], {'who': lift(k)}))
        sc.put(k, 'bvh', NObj('bvh' + sc.nm[k], {}))
        sc.surf = getattr(sc, 'surf', []) + [sf]
        sc.own = getattr(sc, 'own', []) + [ow]
    return sc


def field_models(W, sc, log, linear=False):
    who = lambda g: next(k for k in range(2) if W.ip.same(g, W.get(sc.b[k], 'grid')))

    def grad(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        return ip.arr(arr([tm.sym('g%d%d' % (k, i)) if linear else tm.app('grad%d' % k, i, *p) for i in range(3)]), st)

    def value(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        log.append((k, p.copy(), st.pc))
        return tm.app('phi%d' % k, *p)

    def inside(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        b = a[2] if len(a) > 2 else kw.get('boundary', lift(.5))
        return tm.pred('inside%d' % k, lift(b), *p)
    W.ip.models[GR + 'get_gradient'] = grad
    W.ip.models[GR + 'get_value'] = value
    W.ip.models[GR + 'is_inside'] = inside


def entries(W, L):
    out = []
    for seg in W.ip.np.iterate(L, W.st):
        if seg[0] != 'c':
            raise Unsupported('collection of unknown content')
        out.append((seg[1], seg[2]))
    return out


def inside_hook(s, a):
    """interpretations of the distance fields: mostly inside, near the surface"""
    if a.op.startswith('inside'):
        b = a.args[0]
        if isinstance(b, T) and abs(s.T(b)) > 1e-9:
            return None         # a narrower box: some of the points inside are outside of it
        return s.seed % 4 != 0
    return None


def contacts(r):
    """each reported triangle pair gives one contact of the points its optimisation found, described in both bodies"""
    f0 = CDT + '_compute_contacts'
    for tag, roles, pairs, its in (('a on b', (0, 1), [[1, 4]], 1), ('b on a', (1, 0), [[5, 2]], 1), ('two triangles', (0, 1), [[3, 1], [0, 2]], 1), ('no pairs', (0, 1), [], 1), ('two iterations', (1, 0), [[2, 3]], 2)):
        W = world(r)
        f = W.fn(f0)
        with r.section('contacts ' + tag, f):
            sc = contact_scene(W)
            log = []
            field_models(W, sc, log)
            E = sc.E
            P = W.get(E, 'params')
            env, tol = tm.sym('envelope'), tm.sym('tolerance')
            for a, v in (('envelope', env), ('contact_optimization_max_iterations', lift(its)), ('contact_optimization_tolerance', tol)):
                W.ip.setattr(P, a, v, W.st)
            ka, kb = roles
            W.call(f, E, W.dct(), sc.b[ka], sc.b[kb], A(W, arr(pairs)) if pairs else W.ip.np.zeros_((0, 2), W.st) if hasattr(W.ip.np, 'zeros_') else A(W, np.empty((0, 2), dtype=object)), profiling())
            got = entries(W, W.get(E, 'contact_points'))
            if not r.fact('one contact at most per pair (%s)' % tag, len(got) == len(pairs), f, '%d contacts for %d pairs' % (len(got), len(pairs))):
                continue
            hk = [tet_hook(), inside_hook, pos_hook('envelope')]
            pts = [p for k, p, g in log]
            if len(log) != len(pairs):
                r.undecided('contact points (%s)' % tag, f, 'the field is evaluated %d times' % len(log))
                continue
            for n, (pr, (g, cp), (k, q, _)) in enumerate(zip(pairs, got, log)):
                nm = '%s, pair %d' % (tag, n)
                tA, tB = sc.own[ka][pr[0]][0], sc.own[kb][pr[1]][0]
                x = [X(sc.nm[i], 'x', sc.N(i)) for i in range(2)]
                x0 = X(sc.nm[kb], 'x0', sc.N(kb))
                XA, XB, X0 = [arr([y[i] for i in t]) for y, t in ((x[ka], sc.T(ka)[tA]), (x[kb], sc.T(kb)[tB]), (x0, sc.T(kb)[tB]))]
                tri = [matvec(X0.T, bary(XB, x[ka][i])) for i in sc.surf[ka][pr[0]]]
                gr = arr([tm.app('grad%d' % kb, i, *q) for i in range(3)])
                phi = tm.app('phi%d' % kb, *q)
                r.fact('the distance field of the other body is used (%s)' % nm, k == kb, f, 'field of body %d' % k)
                want = tm.pred('inside%d' % kb, ZERO, *q) & tm.le(phi, env) & tm.lt(ZERO, dot(gr, gr))
                r.eq('a contact exists exactly where the field is known and near (%s)' % nm, g, want, f, hooks=hk, samples=60)
                # the point lies in the triangle
                in_triangle(r, nm, q, tri, f, hk)
                wB = bary(X0, q)
                p = matvec(XB.T, wB)
                kw = dict(hooks=hk, samples=6, care=want)
                r.fact('the first body of the contact is the one with the field (%s)' % nm, W.ip.same(W.get(cp, 'bodyA'), sc.b[kb]) and W.ip.same(W.get(cp, 'bodyB'), sc.b[ka]), f, 'bodies are exchanged')
                r.eq('tetrahedron of the first body (%s)' % nm, W.get(cp, 'idx_tetA'), lift(tB), f)
                r.eq('tetrahedron of the second body (%s)' % nm, W.get(cp, 'idx_tetB'), lift(tA), f)
                eqv(r, 'coordinates in the first body (%s)' % nm, W, W.get(cp, 'omegaA'), wB, f, **kw)
                eqv(r, 'coordinates in the second body (%s)' % nm, W, W.get(cp, 'omegaB'), bary(XA, p), f, **kw)
                eqv(r, 'world position (%s)' % nm, W, W.get(cp, 'p'), p, f, **kw)
                r.eq('gap is the distance (%s)' % nm, W.get(cp, 'g'), phi, f, **kw)
                m = cells(W, W.get(cp, 'n'))
                r.eq('contact normal has unit length (%s)' % nm, dot(m, m), ONE, f, **kw)
                # parallel to the covariant normal: n.e proportional to grad.e0 with a positive factor
                c = [(dot(m, XB[i + 1] - XB[0]), dot(gr, X0[i + 1] - X0[0])) for i in range(3)]
                for i in range(3):
                    r.eq('contact normal is the pushed forward gradient (%s) [%d]' % (nm, i), c[i][0] * c[(i + 1) % 3][1], c[(i + 1) % 3][0] * c[i][1], f, **kw)
                r.le('contact normal points out of the first body (%s)' % nm, ZERO, c[0][0] * c[0][1] + c[1][0] * c[1][1] + c[2][0] * c[2][1], f, hooks=hk)
            for k in range(2):
                eqv(r, 'contact generation keeps the positions of body %s (%s)' % (sc.nm[k], tag), W, W.get(sc.b[k], 'x'), X(sc.nm[k], 'x', sc.N(k)), f)


def in_triangle(r, nm, q, t, f, hk):
    n = cross(t[1] - t[0], t[2] - t[0])
    nn = dot(n, n)
    w = [dot(cross(t[2] - t[1], q - t[1]), n) / nn, dot(cross(t[0] - t[2], q - t[2]), n) / nn, dot(cross(t[1] - t[0], q - t[0]), n) / nn]
    r.eq('the contact point lies in the plane of the triangle (%s)' % nm, dot(q - t[0], n), ZERO, f, hooks=hk, samples=6)
    for i in range(3):
        r.le('the contact point lies inside the triangle (%s) [%d]' % (nm, i), ZERO, w[i], f, hooks=hk)


# ------------------------------------------------------------------ broad phase, pair collection and book-keeping
def pair_dict(W, d):
    """[(guard, key tuple, value)] of a dictionary of known content"""
    out = []
    for g, kv in entries(W, W.meth(d, 'items')):
        k, v = W.ip.np.unpack(kv, 2, W.st)
        out.append((g, tuple(W.ip.np.unpack(k, 2, W.st)), v))
    return out


def pipeline(r):
    W = world(r)
    f = W.fn(CDT + '_update_bvh')
    with r.section('refit of the bounding volumes', f):
        sc = three(W)
        calls = []
        W.ip.models[BV + 'refit_bvh'] = lambda ip, st, a, kw: calls.append((list(a), dict(kw), st.pc))
        W.call(f, sc.E, W.dct(), profiling())
        P = W.get(sc.E, 'params')
        for k in range(3):
            mine = [c for c in calls if any(v is W.get(sc.b[k], 'bvh') for v in list(c[0]) + list(c[1].values()))]
            if not r.fact('the volumes of body %s are refitted' % sc.nm[k], len(mine) == 1 and tm.implies(TRUE, mine[0][2]), f, '%d calls' % len(mine)):
                continue
            a, kw, _ = mine[0]
            names = ['V', 'T', 'bvh', 'K', 'envelope']
            a = dict(zip(names, a), **kw)
            eqv(r, 'volumes of body %s are fitted to its current positions' % sc.nm[k], W, a['V'], X(sc.nm[k], 'x', sc.N(k)), f)
            eqv(r, 'volumes of body %s enclose its surface' % sc.nm[k], W, a['T'], arr(sc.surf[k]), f)
            r.eq('volumes of body %s include the envelope' % sc.nm[k], a.get('envelope', ZERO), tm.sym('envelope'), f)
            r.eq('number of slabs of body %s' % sc.nm[k], a['K'], tm.sym('K'), f)
    W = world(r)
    f = W.fn(CDT + '_narrow_phase')
    with r.section('pairs of bodies', f):
        sc = three(W)
        hits = {(0, 1): [(1, 4), (0, 2)], (0, 2): [], (1, 2): [(5, 3)]}
        asked = []

        def trav(ip, st, a, kw):
            who = [next(k for k in range(3) if W.get(sc.b[k], 'bvh') is v) for v in a[:2]]
            asked.append(tuple(who))
            h = hits[tuple(sorted(who))]
            h = h if who[0] < who[1] else [(q, p) for p, q in h]
            return ip.lst([(lift(p), lift(q)) for p, q in h], st)
        W.ip.models[BV + 'traversal'] = trav
        over, _ = W.ip.np.unpack(W.call(f, sc.E, W.dct(), profiling()), 2, W.st)
        r.fact('every pair of bodies is traversed once', sorted(tuple(sorted(p)) for p in asked) == [(0, 1), (0, 2), (1, 2)], f, 'traversed %s' % asked)
        got = {}
        for g, key, v in pair_dict(W, over):
            ks = tuple(next(k for k in range(3) if W.ip.same(sc.b[k], b)) for b in key)
            if not tm.implies(TRUE, g):
                raise Unsupported('conditional pair')
            got[ks] = v
        for p, h in hits.items():
            v = got.get(p, got.get((p[1], p[0])))
            if not h:
                r.fact('separated bodies %s give no pairs' % (p,), v is None or cells(W, v).shape[0] == 0, f, 'pairs are reported')
                continue
            if not r.fact('overlapping bodies %s are reported' % (p,), v is not None, f, 'no pairs'):
                continue
            c = cells(W, v)
            want = arr(h if p in got else [(b, a) for a, b in h])
            eqv(r, 'triangle pairs of bodies %s' % (p,), W, v, want, f)
    W = world(r)
    f = W.fn(CDT + '_contact_determination')
    with r.section('both roles', f):
        sc = three(W)
        calls = []

        def comp(ip, st, a, kw):
            nm = ['engine', 'stats', 'bodyA', 'bodyB', 'results', 'debug_on']
            a = dict(zip(nm, a), **kw)
            ks = tuple(next(k for k in range(3) if W.ip.same(sc.b[k], a[b])) for b in ('bodyA', 'bodyB'))
            if not tm.implies(TRUE, st.pc):
                raise Unsupported('conditional generation')
            L = ip.getattr(a['engine'], 'contact_points', st)
            calls.append((ks, ip.cells(a['results'], st)))
            ip.call(ip.getattr(L, 'append', st), [lift(len(calls))], {}, st)
            return a['stats']
        W.ip.models[CDT + '_compute_contacts'] = comp
        over = W.dct()
        prs = {(0, 1): [[1, 4], [0, 2], [3, 3]], (1, 2): [[5, 3]]}
        for (p, q), h in prs.items():
            W.ip.np.setitem(over, (sc.b[p], sc.b[q]), A(W, arr(h)), W.st)
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst([lift(77)], W.st), W.st)
        W.call(f, over, sc.E, W.dct(), profiling())
        got = [x for g, x in entries(W, W.get(sc.E, 'contact_points'))]
        r.fact('contacts of the previous step are discarded', not any(isinstance(x, T) and x.const() == 77 for x in got), f, 'an old contact remains')
        for (p, q), h in prs.items():
            for ks, want in (((p, q), h), ((q, p), [[b, a] for a, b in h])):
                mine = [c for k, c in calls if k == ks]
                if r.fact('triangles of body %d are tested against the field of body %d' % ks, len(mine) == 1, f, '%d calls' % len(mine)):
                    r.fact('triangle pairs for bodies %d, %d' % ks, mine[0].shape == (len(want), 2), f, 'shape %s' % (mine[0].shape,))
                    eqv(r, 'triangle pairs for bodies %d, %d' % ks, W, A(W, mine[0]), arr(want), f)
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst([lift(77)], W.st), W.st)
        W.call(f, W.dct(), sc.E, W.dct(), profiling())
        got = [x for g, x in entries(W, W.get(sc.E, 'contact_points'))]
        r.fact('contacts of the previous step are discarded when no boxes overlap', not got, f, '%d contacts remain' % len(got))
    W = world(r)
    f = W.fn(CDT + '_contact_reduction')
    with r.section('redundant contacts', f):
        sc = three(W)
        ps = [V('p%d' % i, 3) for i in range(2)]
        spec = [(0, 1, 0), (1, 0, 0), (0, 1, 1), (0, 1, 0), (0, 2, 0), (0, 1, 1)]
        cps = [W.new(SB + 'types.ContactPoint', sc.b[a], sc.b[b], lift(i), lift(10 + i), A(W, V('oa%d' % i, 4)), A(W, V('ob%d' % i, 4)), A(W, ps[p]), A(W, V('n%d' % i, 3)), tm.sym('gap%d' % i)) for i, (a, b, p) in enumerate(spec)]
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst(list(cps), W.st), W.st)
        W.call(f, sc.E, W.dct(), profiling())
        got = entries(W, W.get(sc.E, 'contact_points'))
        same = TRUE
        for i in range(3):
            same = same & tm.eq0(ps[0][i] - ps[1][i])
        n = ZERO
        for g, x in got:
            n = n + tm.ite(g, ONE, ZERO)
        r.eq('number of contacts kept', n, tm.ite(same, lift(3), lift(4)), f)
        for i, (a, b, p) in enumerate(spec):
            kept = FALSE
            for g, x in got:
                kept = kept | (g & (TRUE if W.ip.same(x, cps[i]) else FALSE))
            first = all(spec[j] != spec[i] for j in range(i))
            want = (~same if i == 2 else TRUE) if first else FALSE
            r.eq('contact %d is %s' % (i, 'kept' if first else 'dropped'), kept, want, f)
    for hashing in (TRUE, FALSE):
        W = world(r)
        f = W.fn(CDT + 'run_collision_detection')
        with r.section('pipeline %s' % ('with spatial hashing' if hashing is TRUE else 'with bounding volumes'), f):
            sc = three(W)
            W.ip.setattr(W.get(sc.E, 'params'), 'use_spatial_hashing', hashing, W.st)
            seq = []

            def stage(nm, ret):
                def g(ip, st, a, kw):
                    seq.append((nm, list(a) + list(kw.values()), st.pc))
                    return ret(ip, st, a)
                W.ip.models[CDT + nm] = g
            d = {n: W.dct() for n in ('_spatial_hashing_narrow_phase', '_narrow_phase')}
            stats = W.dct()
            stage('_update_bvh', lambda ip, st, a: stats)
            for n in d:
                stage(n, lambda ip, st, a, n=n: (d[n], stats))
            stage('_contact_determination', lambda ip, st, a: stats)
            stage('_contact_reduction', lambda ip, st, a: stats)
            W.call(f, sc.E, stats, profiling())
            want = (['_spatial_hashing_narrow_phase'] if hashing is TRUE else ['_update_bvh', '_narrow_phase']) + ['_contact_determination', '_contact_reduction']
            r.fact('stages of the pipeline', [s[0] for s in seq] == want and all(tm.implies(TRUE, s[2]) for s in seq), f, 'stages %s' % [s[0] for s in seq])
            ov = [v for s in seq if s[0] == '_contact_determination' for v in s[1] if isinstance(v, Dct)]
            r.fact('the pairs found are the pairs processed', any(v.oid == d[want[-3]].oid for v in ov), f, 'other pairs are processed')


def three(W):
    sc = contact_scene(W, (0, 2, 1))
    P = W.get(sc.E, 'params')
    W.ip.setattr(P, 'envelope', tm.sym('envelope'), W.st)
    W.ip.setattr(P, 'K', tm.sym('K'), W.st)
    return sc


def box_overlap(a, b):
    """the axis aligned boxes of two sets of points have a common point"""
    g = TRUE
    for i in range(3):
        lo = lambda p: tm.fmin(tm.fmin(p[0][i], p[1][i]), p[2][i])
        hi = lambda p: tm.fmax(tm.fmax(p[0][i], p[1][i]), p[2][i])
        g = g & tm.le(lo(a), hi(b)) & tm.le(lo(b), hi(a))
    return g


def general_position(P, Q):
    from itertools import combinations
    g = TRUE
    for q in combinations(list(P) + list(Q), 4):
        g = g & tm.lt(tm.lift(.001), tm.absval(orient(*q)))
    return g


def share(P, Q):
    want = FALSE
    for p in P:
        for q in Q:
            e = TRUE
            for i in range(3):
                e = e & tm.eq0(p[i] - q[i])
            want = want | e
    return want


def meets(P, Q):
    want = FALSE
    for S_, T_ in ((P, Q), (Q, P)):
        for i in range(3):
            want = want | crosses(S_[i], S_[(i + 1) % 3], T_)
    return want


def hashing(r):
    """every triangle is entered in all cells its box touches, and the candidates found there are reported exactly when they can touch"""
    W = world(r)
    f = W.fn(CDT + '_spatial_hashing_narrow_phase')
    with r.section('spatial hashing', f):
        sc = contact_scene(W, (0, 2))
        cs, ts = tm.sym('cellsize'), tm.sym('stamp')
        W.ip.setattr(W.get(sc.E, 'params'), 'time_stamp', ts, W.st)
        ranges, calls, found = [], [], []
        xs = [X(sc.nm[k], 'x', sc.N(k)) for k in range(2)]
        tri = lambda k, t: [xs[k][i] for i in sc.surf[k][t]]
        cell = [tm.sym('cell%d' % i) for i in range(3)]

        def product(ip, st, a, kw):
            g = TRUE
            for c, rg in zip(cell, a):
                if not isinstance(rg, Rng) or lift(rg.s).const() != 1:
                    raise Unsupported('cells other than a range')
                g = g & tm.le(lift(rg.a), c) & tm.lt(c, lift(rg.b))
            ranges.append(g)
            return It([('c', g, tuple(cell))])

        def insert(ip, st, a, kw):
            a = dict(zip(['i', 'j', 'k', 'tri_idx', 'body_idx', 'tri_aabb', 'time_stamp'], a), **kw)
            k, t = int(lift(a['body_idx']).const()), int(lift(a['tri_idx']).const())
            calls.append((k, t, a, st.pc))
            cand = []
            if t == 1:
                cand.append((k, 0))
            if t == 5:
                cand += [(k, 2), (0, 1)]
            if k == 1 and t == 3:
                cand += [(0, 0), (0, 1)]
            out = []
            for ck, ct in cand:
                found.append((k, t, ck, ct, st.pc))
                P = arr(tri(ck, ct))
                lo = arr([tm.fmin(tm.fmin(P[0][i], P[1][i]), P[2][i]) for i in range(3)])
                hi = arr([tm.fmax(tm.fmax(P[0][i], P[1][i]), P[2][i]) for i in range(3)])
                out.append((lift(ct), lift(ck), ip.call(ip.find_class('rainbow.geometry.aabb.AABB'), [ip.arr(lo, st), ip.arr(hi, st)], {}, st)))
            return ip.lst(out, st)
        grid = NObj('hash', {'cell_size': cs, 'insert': Native(insert)})
        W.ip.setattr(sc.E, 'hash_grid', grid, W.st)
        W.ip.models['itertools.product'] = product
        # keep the collected pairs as a collection, their number depends on the geometry
        W.ip.models['numpy.array'] = lambda ip, st, a, kw: a[0] if isinstance(a[0], Lst) and any(sg.guard is not TRUE for sg in ip.content(a[0].oid, st).segs) else ip.np.n_array(a, kw, st)
        W.ip.models['builtins.sorted'] = lambda ip, st, a, kw: a[0] if isinstance(a[0], Lst) and not kw else ip.np.x_builtins_sorted(a, kw, st)
        over, _ = W.ip.np.unpack(W.call(f, sc.E, W.dct(), profiling()), 2, W.st)
        bad = [e for e in W.ip.events if e.kind == 'raise']
        r.eq('cell sizes that are not positive are rejected', W.st.pc, tm.lt(ZERO, cs), f)
        hk = [pos_hook('cellsize'), near_hook]
        want = [(k, t) for k in range(2) for t in range(len(sc.surf[k]))]
        r.fact('every surface triangle is entered', sorted((k, t) for k, t, a, g in calls) == want, f, 'entered %s' % sorted((k, t) for k, t, a, g in calls))
        p, how = V('p', 3), None
        for k, t, a, g in calls:
            P = tri(k, t)
            nm = 'body %s triangle %d' % (sc.nm[k], t)
            lo = arr([tm.fmin(tm.fmin(P[0][i], P[1][i]), P[2][i]) for i in range(3)])
            hi = arr([tm.fmax(tm.fmax(P[0][i], P[1][i]), P[2][i]) for i in range(3)])
            eqv(r, 'lower corner of the box, %s' % nm, W, W.get(a['tri_aabb'], 'min_point'), lo, f)
            eqv(r, 'upper corner of the box, %s' % nm, W, W.get(a['tri_aabb'], 'max_point'), hi, f)
            r.eq('time stamp, %s' % nm, a['time_stamp'], ts, f)
            for n, c in zip('ijk', cell):
                r.eq('cell %s, %s' % (n, nm), a[n], c, f)
            # any point of the box lies in a cell that is visited; truncated and rounded down numbering are both fine
            inside = TRUE
            for i in range(3):
                inside = inside & tm.le(lo[i], p[i]) & tm.le(p[i], hi[i])
            claims = [tm.subst(g, {cell[i].as_atom(): tm.fun(rd, p[i] / cs) for i in range(3)}) | ~inside | ~tm.lt(ZERO, cs) for rd in ('int', 'floor')]
            hks = hk + [in_box(P)]
            if how is None:
                how = 0 if all(tm.Sample(q, hooks=hks).B(claims[0]) for q in range(60)) else 1
            r.holds('all cells of the box are visited, %s' % nm, claims[how], f, hooks=hks, need=25)
        got = {}
        for g, key, v in pair_dict(W, over):
            ks = tuple(next(k for k in range(2) if W.ip.same(sc.b[k], b)) for b in key)
            for row in W.ip.np.iterate(v, W.st):
                if row[0] != 'c':
                    raise Unsupported('pairs of unknown content')
                i, j = (int(lift(x).const()) for x in W.ip.np.unpack(row[2], 2, W.st))
                got[ks + (i, j)] = got.get(ks + (i, j), FALSE) | (g & row[1])
        pairs = {(k, ck, t, ct): g for k, t, ck, ct, g in found}
        for q in set(got) | set(pairs):
            k, ck, t, ct = q
            P, Q = tri(k, t), tri(ck, ct)
            near = box_overlap(P, Q)
            care = W.st.pc
            if k == ck:
                near = near & ~share(P, Q) & meets(P, Q)
                care = care & (general_position(P, Q) | share(P, Q))
            r.eq('pair of body %s triangle %d and body %s triangle %d' % (sc.nm[k], t, sc.nm[ck], ct), got.get(q, FALSE), pairs.get(q, FALSE) & near, f, care=care, hooks=hk, samples=120)


def in_box(P):
    """interpretations in which the point p lies in the box of P"""
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('p['):
            i = eval(a.args[0][1:])[0]
            v = [s.T(q[i]) for q in P]
            return min(v) + (abs(s.basic(a)) % 1) * (max(v) - min(v))
        return None
    return hk


def near_hook(s, a):
    """the generic cell is one near the origin"""
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('cell') and a.args[0] != 'cellsize':
        return float(round(s.basic(a) * 1.5))
    return None


def deepest(r):
    """in a field with constant gradient the contact is generated at the deepest point of the triangle"""
    for its in (1, 3):
        W = world(r)
        f = W.fn(CDT + '_compute_contacts')
        with r.section('deepest point, %d iterations' % its, f):
            sc = contact_scene(W)
            log = []
            field_models(W, sc, log, linear=True)
            P = W.get(sc.E, 'params')
            for a, v in (('envelope', tm.sym('envelope')), ('contact_optimization_max_iterations', lift(its)), ('contact_optimization_tolerance', tm.sym('tolerance'))):
                W.ip.setattr(P, a, v, W.st)
            W.call(f, sc.E, W.dct(), sc.b[0], sc.b[1], A(W, arr([[1, 4]])), profiling())
            k, q, g = log[0]
            t = sc.T(1)[sc.own[1][4][0]]
            x, y, x0 = X(sc.nm[0], 'x', sc.N(0)), X(sc.nm[1], 'x', sc.N(1)), X(sc.nm[1], 'x0', sc.N(1))
            XB, X0 = arr([y[i] for i in t]), arr([x0[i] for i in t])
            tri = [matvec(X0.T, bary(XB, x[i])) for i in sc.surf[0][1]]
            gr = arr([tm.sym('g1%d' % i) for i in range(3)])
            d = [dot(gr, v) for v in tri]
            r.eq('depth of the contact, %d iterations' % its, dot(gr, q), tm.fmin(tm.fmin(d[0], d[1]), d[2]), f, hooks=[tet_hook()])
