"""Rigid body simulator: collision detection."""
from .lib import *
from .rules_soft import ints, zeros
from .rules_soft3 import pair_dict, entries, in_triangle, inside_hook, GR, BV

CDR = SR + 'collision_detection.'
TRI = [[0, 1, 2], [0, 2, 3], [3, 1, 0], [1, 3, 2]]


class RScene:
    """rigid bodies with known triangles, arbitrary vertices and arbitrary placement"""

    def __init__(self, W, n):
        self.W, self.E, self.b = W, W.new(RT + '.Engine'), []
        self.nm = 'cab'[:n]
        for k, c in enumerate(self.nm):
            o = W.new(RT + '.RigidBody', c)
            s = NObj('shape' + c, {'mesh': NObj('mesh' + c, {'V': A(W, V('V' + c, (4, 3))), 'T': ints(W, TRI)}), 'grid': NObj('grid' + c, {}), 'name': 'shape' + c})
            for a, v in (('idx', lift(k)), ('q', A(W, V('q' + c, 4))), ('r', A(W, V('r' + c, 3))), ('v', A(W, V('v' + c, 3))), ('w', A(W, V('w' + c, 3))), ('shape', s), ('bvh', NObj('bvh' + c, {}))):
                W.ip.setattr(o, a, v, W.st)
            if k == 0:
                W.ip.setattr(o, 'is_fixed', TRUE, W.st)
            W.ip.np.setitem(W.get(self.E, 'bodies'), c, o, W.st)
            self.b.append(o)
        for a in ('envelope', 'K', 'tolerance'):
            W.ip.setattr(self.P, 'contact_optimization_tolerance' if a == 'tolerance' else a, tm.sym(a), W.st)

    @property
    def P(self):
        return self.W.get(self.E, 'params')

    def place(self, tag=''):
        """puts the bodies somewhere (else)"""
        for c, o in zip(self.nm, self.b):
            self.W.ip.setattr(o, 'q', A(self.W, V(tag + 'q' + c, 4)), self.W.st)
            self.W.ip.setattr(o, 'r', A(self.W, V(tag + 'r' + c, 3)), self.W.st)

    def who(self, body):
        return next(k for k, b in enumerate(self.b) if self.W.ip.same(b, body))

    def world(self, k, i):
        c = self.nm[k]
        return qrot(V('q' + c, 4), V('V' + c, (4, 3))[i]) + V('r' + c, 3)

    def local(self, k, p):
        c = self.nm[k]
        return matvec(qmat(V('q' + c, 4)).T, p - V('r' + c, 3))


def field_models(W, sc, log, linear=False):
    who = lambda g: next(k for k, b in enumerate(sc.b) if W.ip.same(g, W.get(W.get(b, 'shape'), 'grid')))

    def grad(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        return ip.arr(arr([tm.sym('g%d%d' % (k, i)) if linear else tm.app('grad%d' % k, i, *p) for i in range(3)]), st)

    def value(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        log.append((k, p.copy(), st.pc))
        return tm.app('phi%d' % k, *p)

    def inside(ip, st, a, kw):
        k, p = who(a[0]), ip.cells(a[1] if len(a) > 1 else kw['p'], st)
        b = a[2] if len(a) > 2 else kw.get('boundary', lift(.5))
        return tm.pred('inside%d' % k, lift(b), *p)
    W.ip.models[GR + 'get_gradient'] = grad
    W.ip.models[GR + 'get_value'] = value
    W.ip.models[GR + 'is_inside'] = inside


def unit_vertices(s, a):
    """well separated vertices, so that no triangle is degenerate"""
    base = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0][0] == 'V' and a.args[0][2:3] == '[':
        i, j = eval(a.args[0][2:])
        return base[i][j] + .2 * max(-1.0, min(1.0, s.basic(a)))
    return None


def R15(r):
    """contacts between rigid bodies"""
    contacts(r)
    deepest(r)
    pipeline(r)


HK = [unit_hook('qa', 'qb', 'qc'), unit_vertices, inside_hook, pos_hook('envelope')]


def contacts(r):
    for tag, roles, tris, its in (('a on b', (0, 1), [1], 1), ('b on a', (1, 0), [3], 1), ('two triangles', (0, 1), [2, 0], 1), ('no triangles', (0, 1), [], 1), ('two iterations', (1, 0), [2], 2)):
        W = world(r)
        f = W.fn(CDR + '_compute_contacts')
        with r.section('contacts ' + tag, f):
            sc = RScene(W, 2)
            log = []
            field_models(W, sc, log)
            W.ip.setattr(sc.P, 'contact_optimization_max_iterations', lift(its), W.st)
            ka, kb = roles
            if tris and its == 1:
                # an earlier step, elsewhere
                sc.place('old')
                W.call(f, sc.E, sc.b[ka], sc.b[kb], A(W, arr(tris[::-1])), W.dct(), profiling())
                W.ip.setattr(sc.E, 'contact_points', W.ip.lst([], W.st), W.st)
                del log[:]
                sc.place()
            W.call(f, sc.E, sc.b[ka], sc.b[kb], A(W, arr(tris)) if tris else A(W, np.empty((0,), dtype=object)), W.dct(), profiling())
            got = entries(W, W.get(sc.E, 'contact_points'))
            if not r.fact('one contact at most per triangle (%s)' % tag, len(got) == len(tris), f, '%d contacts for %d triangles' % (len(got), len(tris))):
                continue
            if len(log) != len(tris):
                r.undecided('contact points (%s)' % tag, f, 'the field is evaluated %d times' % len(log))
                continue
            for n, (t, (g, cp), (k, q, _)) in enumerate(zip(tris, got, log)):
                nm = '%s, triangle %d' % (tag, n)
                tri = [sc.local(kb, sc.world(ka, i)) for i in TRI[t]]
                gr = arr([tm.app('grad%d' % kb, i, *q) for i in range(3)])
                phi = tm.app('phi%d' % kb, *q)
                r.fact('the distance field of the other body is used (%s)' % nm, k == kb, f, 'field of body %d' % k)
                want = tm.pred('inside%d' % kb, ZERO, *q) & tm.le(phi, tm.sym('envelope')) & tm.lt(ZERO, dot(gr, gr))
                r.eq('a contact exists exactly where the field is known and near (%s)' % nm, g, want, f, hooks=HK, samples=60)
                in_triangle(r, nm, q, tri, f, HK)
                r.fact('the first body of the contact is the one with the field (%s)' % nm, W.ip.same(W.get(cp, 'bodyA'), sc.b[kb]) and W.ip.same(W.get(cp, 'bodyB'), sc.b[ka]), f, 'bodies are exchanged')
                c = sc.nm[kb]
                kw = dict(hooks=HK, samples=8, care=want)
                eqv(r, 'world position (%s)' % nm, W, W.get(cp, 'p'), qrot(V('q' + c, 4), q) + V('r' + c, 3), f, **kw)
                eqv(r, 'contact normal is the rotated gradient of unit length (%s)' % nm, W, W.get(cp, 'n'), arr(qrot(V('q' + c, 4), gr) / norm(gr)), f, **kw)
                r.eq('gap is the distance (%s)' % nm, W.get(cp, 'g'), phi, f, **kw)
            for k in range(2):
                for a, s in (('r', 3), ('q', 4)):
                    eqv(r, 'contact generation keeps %s of body %s (%s)' % (a, sc.nm[k], tag), W, W.get(sc.b[k], a), V(a + sc.nm[k], s), f)
                eqv(r, 'contact generation keeps the vertices of body %s (%s)' % (sc.nm[k], tag), W, W.get(W.get(W.get(sc.b[k], 'shape'), 'mesh'), 'V'), V('V' + sc.nm[k], (4, 3)), f)


def deepest(r):
    for its in (1, 3):
        W = world(r)
        f = W.fn(CDR + '_compute_contacts')
        with r.section('deepest point, %d iterations' % its, f):
            sc = RScene(W, 2)
            log = []
            field_models(W, sc, log, linear=True)
            W.ip.setattr(sc.P, 'contact_optimization_max_iterations', lift(its), W.st)
            W.call(f, sc.E, sc.b[0], sc.b[1], A(W, arr([1])), W.dct(), profiling())
            k, q, g = log[0]
            tri = [sc.local(1, sc.world(0, i)) for i in TRI[1]]
            gr = arr([tm.sym('g1%d' % i) for i in range(3)])
            d = [dot(gr, v) for v in tri]
            r.eq('depth of the contact, %d iterations' % its, dot(gr, q), tm.fmin(tm.fmin(d[0], d[1]), d[2]), f, hooks=HK)


def pipeline(r):
    W = world(r)
    f = W.fn(CDR + '_update_bvh')
    with r.section('refit of the bounding volumes', f):
        sc = RScene(W, 3)
        calls = []
        W.ip.models[BV + 'refit_bvh'] = lambda ip, st, a, kw: calls.append((list(a), dict(kw), st.pc, {}))

        def refit(ip, st, a, kw):
            a = dict(zip(['V', 'T', 'bvh', 'K', 'envelope'], a), **kw)
            a['V'], a['T'] = ip.cells(a['V'], st).copy(), ip.cells(a['T'], st).copy()
            calls.append((a, st.pc))
        W.ip.models[BV + 'refit_bvh'] = refit
        sc.place('old')
        W.call(f, sc.E, W.dct(), profiling())
        del calls[:]
        sc.place()
        W.call(f, sc.E, W.dct(), profiling())
        for k in range(3):
            mine = [c for c in calls if c[0]['bvh'] is W.get(sc.b[k], 'bvh')]
            if not r.fact('the volumes of body %s are refitted' % sc.nm[k], len(mine) == 1 and tm.implies(TRUE, mine[0][1]), f, '%d calls' % len(mine)):
                continue
            a = mine[0][0]
            eqv(r, 'volumes of body %s are fitted to its vertices in the world' % sc.nm[k], W, A(W, a['V']), arr([sc.world(k, i) for i in range(4)]), f, hooks=HK)
            eqv(r, 'volumes of body %s enclose its triangles' % sc.nm[k], W, A(W, a['T']), arr(TRI), f)
            r.eq('volumes of body %s include the envelope' % sc.nm[k], a.get('envelope', ZERO), tm.sym('envelope'), f)
            r.eq('number of slabs of body %s' % sc.nm[k], a['K'], tm.sym('K'), f)
    W = world(r)
    f = W.fn(CDR + '_narrow_phase')
    with r.section('pairs of bodies', f):
        sc = RScene(W, 3)
        hits = {(0, 1): [(1, 3), (0, 2)], (0, 2): [], (1, 2): [(2, 3)]}
        asked = []

        def trav(ip, st, a, kw):
            who = [next(k for k in range(3) if W.get(sc.b[k], 'bvh') is v) for v in a[:2]]
            asked.append(tuple(who))
            h = hits[tuple(sorted(who))]
            h = h if who[0] < who[1] else [(q, p) for p, q in h]
            return ip.lst([(lift(p), lift(q)) for p, q in h], st)
        W.ip.models[BV + 'traversal'] = trav
        over = W.call(f, sc.E, W.dct(), profiling())
        r.fact('every pair of bodies is traversed once', sorted(tuple(sorted(p)) for p in asked) == [(0, 1), (0, 2), (1, 2)], f, 'traversed %s' % asked)
        got = {}
        for g, key, v in pair_dict(W, over):
            if not tm.implies(TRUE, g):
                raise Unsupported('conditional pair')
            got[tuple(sc.who(b) for b in key)] = v
        for p, h in hits.items():
            v = got.get(p, got.get((p[1], p[0])))
            if not h:
                r.fact('separated bodies %s give no pairs' % (p,), v is None or cells(W, v).shape[0] == 0, f, 'pairs are reported')
                continue
            if r.fact('overlapping bodies %s are reported' % (p,), v is not None, f, 'no pairs'):
                eqv(r, 'triangle pairs of bodies %s' % (p,), W, v, arr(h if p in got else [(b, a) for a, b in h]), f)
    W = world(r)
    f = W.fn(CDR + '_contact_determination')
    with r.section('both roles', f):
        sc = RScene(W, 3)
        calls = []

        def comp(ip, st, a, kw):
            a = dict(zip(['engine', 'bodyA', 'bodyB', 'trianglesA', 'profile_data', 'profiling_on'], a), **kw)
            if not tm.implies(TRUE, st.pc):
                raise Unsupported('conditional generation')
            calls.append(((sc.who(a['bodyA']), sc.who(a['bodyB'])), [int(x.const()) for x in ip.cells(a['trianglesA'], st)]))
            ip.call(ip.getattr(ip.getattr(a['engine'], 'contact_points', st), 'append', st), [lift(len(calls))], {}, st)
        W.ip.models[CDR + '_compute_contacts'] = comp
        over = W.dct()
        prs = {(0, 1): [[1, 3], [0, 2], [1, 2], [3, 3]], (1, 2): [[2, 3]]}
        for (p, q), h in prs.items():
            W.ip.np.setitem(over, (sc.b[p], sc.b[q]), A(W, arr(h)), W.st)
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst([lift(77)], W.st), W.st)
        W.call(f, over, sc.E, W.dct(), profiling())
        got = [x for g, x in entries(W, W.get(sc.E, 'contact_points'))]
        r.fact('contacts of the previous step are discarded', not any(isinstance(x, T) and x.const() == 77 for x in got), f, 'an old contact remains')
        for (p, q), h in prs.items():
            for ks, col in (((p, q), 0), ((q, p), 1)):
                mine = [set(c) for k, c in calls if k == ks]
                r.fact('triangles of body %d tested against the field of body %d' % ks, len(mine) == 1 and mine[0] == {x[col] for x in h}, f, 'triangles %s' % mine)
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst([lift(77)], W.st), W.st)
        W.call(f, W.dct(), sc.E, W.dct(), profiling())
        got = [x for g, x in entries(W, W.get(sc.E, 'contact_points'))]
        r.fact('contacts of the previous step are discarded when no boxes overlap', not got, f, '%d contacts remain' % len(got))
    W = world(r)
    f = W.fn(CDR + '_contact_reduction')
    with r.section('redundant contacts', f):
        sc = RScene(W, 3)
        ps = [V('p%d' % i, 3) for i in range(2)]
        spec = [(0, 1, 0), (2, 1, 0), (0, 1, 1), (0, 1, 0), (0, 2, 0), (0, 1, 1)]
        cps = [W.new(RT + '.ContactPoint', sc.b[a], sc.b[b], A(W, ps[p]), A(W, arr([0, 0, 1])), tm.sym('gap%d' % i)) for i, (a, b, p) in enumerate(spec)]
        W.ip.setattr(sc.E, 'contact_points', W.ip.lst(list(cps), W.st), W.st)
        W.call(f, sc.E, W.dct(), profiling())
        got = entries(W, W.get(sc.E, 'contact_points'))
        same = TRUE
        for i in range(3):
            same = same & tm.eq0(ps[0][i] - ps[1][i])
        for i, (a, b, p) in enumerate(spec):
            kept = FALSE
            for g, x in got:
                kept = kept | (g & (TRUE if W.ip.same(x, cps[i]) else FALSE))
            first = all(spec[j] != spec[i] for j in range(i))
            r.eq('contact %d is %s' % (i, 'kept' if first else 'dropped'), kept, (~same if i == 2 else TRUE) if first else FALSE, f)
    W = world(r)
    f = W.fn(CDR + 'run_collision_detection')
    with r.section('pipeline', f):
        sc = RScene(W, 2)
        seq, d = [], W.dct()
        for nm in ('_update_bvh', '_narrow_phase', '_contact_determination', '_contact_reduction'):
            def stage(ip, st, a, kw, nm=nm):
                seq.append((nm, list(a) + list(kw.values()), st.pc))
                return d if nm == '_narrow_phase' else None
            W.ip.models[CDR + nm] = stage
        W.call(f, sc.E, W.dct(), profiling())
        r.fact('stages of the pipeline', [s[0] for s in seq] == ['_update_bvh', '_narrow_phase', '_contact_determination', '_contact_reduction'] and all(tm.implies(TRUE, s[2]) for s in seq), f, 'stages %s' % [s[0] for s in seq])
        ov = [v for s in seq if s[0] == '_contact_determination' for v in s[1] if isinstance(v, Dct)]
        r.fact('the pairs found are the pairs processed', any(v.oid == d.oid for v in ov), f, 'other pairs are processed')
