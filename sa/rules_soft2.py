"""Soft body simulator: the scripting interface, time loop and material interactions."""
from .lib import *
from .rules_rigid2 import time_recurrence, S, str_hook, storage, preexisting, engine_events, choice_attr, choice_item, quiet, MUTS
from .rules_soft import vol_of, grads, SB, ME, SO, NA, EA, AP, CDT, SOLVE, TETS, NODES, zeros, ints, dirichlet
from .rules_rigid import pos_fields

TY = SB + 'types.'


def nodes(lazy):
    return tm.app('fld', lazy[1], '#nodes', lazy[2]) if lazy[0] == 'coll' else tm.sym('%s#nodes' % lazy[1])


SOFT_SCHEMA = {
    ('Engine', 'bodies'): ('coll', 'dict', 'bodies', ('obj', TY + 'SoftBody')),
    ('Engine', 'materials'): ('coll', 'dict', 'materials', ('obj', TY + 'MaterialDescription')),
    ('Engine', 'surfaces_interactions'): ('obj', TY + 'SurfacesInteractionLibrary'),
    ('Engine', 'params'): ('obj', TY + 'Parameters'),
    ('Engine', 'number_of_nodes'): 'f',
    ('Engine', 'hash_grid'): 'opq',
    ('Engine', 'stepper'): ('obj', SO + 'SemiImplicitStepper'),
    ('SoftBody', 'name'): 's', ('SoftBody', 'idx'): 'selfidx', ('SoftBody', 'offset'): 'f',
    ('SoftBody', 'x0'): ('arr', (nodes, 3)), ('SoftBody', 'x'): ('arr', (nodes, 3)), ('SoftBody', 'u'): ('arr', (nodes, 3)),
    ('SoftBody', 'T'): 'opq', ('SoftBody', 'surface'): 'opq', ('SoftBody', 'owners'): 'opq', ('SoftBody', 'neighbors'): 'opq',
    ('SoftBody', 'bvh'): 'opq', ('SoftBody', 'grid'): 'opq', ('SoftBody', 'vol0'): 'opq', ('SoftBody', 'invD0'): 'opq',
    ('SoftBody', 'gradN0'): 'opq', ('SoftBody', 'M_array'): 'opq', ('SoftBody', 'C_array'): 'opq', ('SoftBody', 'gravity'): 'v3',
    ('SoftBody', 'is_lumped'): 'b', ('SoftBody', 'is_fixed'): 'b',
    ('SoftBody', 'material_description'): ('member', 'materials', TY + 'MaterialDescription'),
    ('SoftBody', 'dirichlet_conditions'): ('coll', 'list', None, ('obj', TY + 'DirichletCondition')),
    ('SoftBody', 'traction_conditions'): ('coll', 'list', None, ('obj', TY + 'TractionCondition')),
    ('MaterialDescription', 'name'): 's', ('MaterialDescription', 'E'): 'f', ('MaterialDescription', 'nu'): 'f',
    ('MaterialDescription', 'rho'): 'f', ('MaterialDescription', 'c'): 'f', ('MaterialDescription', 'constitutive_model'): 'opq',
    ('SurfacesInteraction', 'mu'): 'v3',
    ('SurfacesInteractionLibrary', 'storage'): ('coll', 'dict', 'interactions', ('obj', TY + 'SurfacesInteraction')),
    ('SemiImplicitStepper', 'log'): ('coll', 'list', 'steplog', 'opq'),
}


def eng(W):
    return W.root(TY + 'Engine', 'engine')


def soft(r, **kw):
    kw.setdefault('schema', SOFT_SCHEMA)
    return world(r, **kw)


def stored(W, coll, name):
    return W.ip.np.getitem(W.get(eng(W), coll), name, W.st)


def inn(W, coll, n):
    return W.ip.np.contains(W.get(eng(W), coll), S(W, n), W.st)


ELEMENT = [NA + 'compute_mass_element_array', NA + 'compute_damping_element_array']


def soft_guards():
    s = lambda n: (lambda W: S(W, n))
    v = lambda n, k: (lambda W: A(W, V(n, k)))
    E, nu, c, rho = (tm.sym(x) for x in ('E', 'nu', 'c', 'rho'))
    word = lambda W, n, ws: W.ip.np.contains(tuple(ws), S(W, n), W.st)
    both = ('fixed', 'Fixed', 'FIXED', 'free', 'Free', 'FREE')
    f = lambda x: (lambda W: x)

    def newpair(W):
        k = W.meth(W.get(eng(W), 'surfaces_interactions'), 'exist_interaction', S(W, 'a'), S(W, 'b'))
        return inn(W, 'materials', 'a') & inn(W, 'materials', 'b') & ~W.ip.truth(k, W.st) & tm.le(ZERO, tm.sym('mu'))

    def model(*attrs):
        return lambda W: NObj('model', {a: Native(lambda ip, st, a_, kw: ZERO) for a in attrs}, TRUE)
    half = ONE / 2
    out = [
        ('set_velocity', [s('n'), v('p', 3)], lambda W: inn(W, 'bodies', 'n'), ''),
        ('set_velocity', [s('n'), v('p', 2)], lambda W: FALSE, ' (two numbers)'),
        ('set_velocity', [s('n'), v('p', 4)], lambda W: FALSE, ' (four numbers)'),
        ('set_gravity', [s('n'), v('p', 3)], lambda W: inn(W, 'bodies', 'n'), ''),
        ('set_gravity', [s('n'), v('p', 2)], lambda W: FALSE, ' (two numbers)'),
        ('get_material_coordinates', [s('n')], lambda W: inn(W, 'bodies', 'n'), ''),
        ('set_type', [s('n'), s('t')], lambda W: inn(W, 'bodies', 'n') & word(W, 't', both), ''),
        ('create_material', [s('m')], lambda W: ~inn(W, 'materials', 'm'), ''),
        ('set_material', [s('n'), s('m')], lambda W: inn(W, 'bodies', 'n') & inn(W, 'materials', 'm'), ''),
        ('set_elasticity', [s('m'), f(E), f(nu)], lambda W: inn(W, 'materials', 'm') & tm.lt(ZERO, E) & tm.le(ZERO, nu) & tm.le(nu, half), ''),
        ('set_viscosity', [s('m'), f(c)], lambda W: inn(W, 'materials', 'm') & tm.le(ZERO, c), ''),
        ('set_mass_density', [s('m'), f(rho)], lambda W: inn(W, 'materials', 'm') & tm.le(ZERO, rho), ''),
        ('create_surfaces_interaction', [s('a'), s('b'), f(tm.sym('mu'))], newpair, ''),
        ('set_constitutive_model', [s('m'), model('pk1_stress', 'energy_density')], lambda W: inn(W, 'materials', 'm'), ''),
        ('set_constitutive_model', [s('m'), model('pk1_stress')], lambda W: FALSE, ' (model without energy)'),
        ('set_constitutive_model', [s('m'), model('energy_density')], lambda W: FALSE, ' (model without stress)'),
        ('create_dirichlet_conditions', [s('n'), lambda W: Native(lambda ip, st, a, kw: tm.app('level', *ip.cells(a[0], st)))], lambda W: inn(W, 'bodies', 'n'), ''),
    ]
    for extra in (0, 1):
        out.append(('set_spatial_coordinates', [s('n'), (lambda e: lambda W: W.ip.sarr(lambda ix: tm.app('newx', *ix), (nodes(('coll', 'bodies', stored_index(W, S(W, 'n')))) + e, 3), W.st))(extra)],
                    (lambda e: lambda W: FALSE if e else inn(W, 'bodies', 'n'))(extra), ' (another number of nodes)' if extra else ''))
    return out


def stored_index(W, name):
    b = stored(W, 'bodies', name)
    return b.lazy[2] if getattr(b, 'lazy', None) else b.oid[2]


def before(W, ev):
    o = ev.data[0]
    o = getattr(o, 'oid', o)
    return isinstance(o, tuple) or o in getattr(W, 'frozen', ())


def first_change(W):
    """(change, raise) when something that existed before is changed on a path that is rejected later"""
    evs = W.ip.events
    for i, ev in enumerate(evs):
        if ev.kind != 'raise':
            continue
        for m in evs[:i]:
            if m.kind in MUTS and before(W, m) and (m.guard & ev.guard) is not FALSE:
                return m, ev
    return None


def S07(r):
    """every call of the soft body scripting interface is accepted exactly for legal arguments, a rejected call changes nothing, and an accepted one changes only what it names"""
    for fn, mk, legal, tag in soft_guards():
        W = soft(r, opaque=ELEMENT)
        f = W.fn(AP + fn)
        with r.section(fn + tag, f):
            E = eng(W)
            args = [m(W) for m in mk]
            want = quiet(W, legal)
            try:
                W.call(f, E, *args)
                pc = W.st.pc
            except Dead:
                pc = FALSE
            r.eq('%s is accepted exactly for legal arguments%s' % (fn, tag), pc, want, f, hooks=[str_hook])
            bad = first_change(W)
            r.count('raise sites', sum(e.kind == 'raise' for e in W.ip.events))
            r.fact('%s changes nothing before it rejects%s' % (fn, tag), bad is None, f,
                   bad and 'the %s at %s happens before the raise at %s' % (bad[0].kind, bad[0].loc, bad[1].loc))
    setters(r)
    conditions(r)
    creation(r)


BODY = {'u': 3, 'x': 3, 'x0': 3}


def watch(W, b):
    """the values of a body a setter could touch"""
    n, j = tm.sym('ιn'), range(3)
    out = {}
    for a in ('x0', 'x', 'u'):
        for q in j:
            out['%s of a node [%d]' % (a, q)] = lambda a=a, q=q: W.ip.sel(W.get(b, a), (n, lift(q)), W.st)
    for q in j:
        out['gravity[%d]' % q] = lambda q=q: cells(W, W.get(b, 'gravity'))[q]
    out['fixed flag'] = lambda: tm.ite(W.ip.truth(W.get(b, 'is_fixed'), W.st), ONE, ZERO)
    for a in ('dirichlet_conditions', 'traction_conditions'):
        out['number of ' + a] = lambda a=a: W.ip.np.length(W.get(b, a), W.st)
    out['offset'] = lambda: W.get(b, 'offset')
    return out


def check_watch(r, W, what, f, w, old, changed=(), care=TRUE):
    for k, g in w.items():
        if not any(k.startswith(c) for c in changed):
            r.eq('%s: %s' % (what, k), g(), old[k], f, care=care, hooks=[str_hook])


def setters(r):
    from .interp import Obj
    n = tm.sym('ιn')
    other = tm.sym('ιo')

    def setup(fn, *args):
        W = soft(r, opaque=ELEMENT)
        f = W.fn(AP + fn)
        b = stored(W, 'bodies', S(W, 'n'))
        o = W.ip.sym_obj(TY + 'SoftBody', ('coll', 'bodies', other), W.st)
        wb, wo = watch(W, b), watch(W, o)
        ob, oo = {k: g() for k, g in wb.items()}, {k: g() for k, g in wo.items()}
        W.ip.events.clear()
        return W, f, eng(W), b, wb, wo, ob, oo
    diff = ~tm.eq0(tm.sym('never'))
    W, f, E, b, wb, wo, ob, oo = setup('set_velocity')
    with r.section('set_velocity', f):
        p = V('p', 3)
        arg = A(W, p)
        W.call(f, E, S(W, 'n'), arg)
        inr = tm.le(ZERO, n) & tm.lt(n, W.get(b, 'u').shape[0])
        for q in range(3):
            r.eq('set_velocity gives every node the velocity [%d]' % q, W.ip.sel(W.get(b, 'u'), (n, lift(q)), W.st), p[q], f, care=inr)
        check_watch(r, W, 'set_velocity keeps', f, wb, ob, ('u ',))
        check_watch(r, W, 'set_velocity leaves other bodies alone', f, wo, oo, (), care=W.st.pc & ~tm.eq0(other - b.lazy[2]) if getattr(b, 'lazy', None) else W.st.pc)
        eqv(r, 'set_velocity leaves its argument alone', W, arg, p, f)
    W, f, E, b, wb, wo, ob, oo = setup('set_gravity')
    with r.section('set_gravity', f):
        p = V('p', 3)
        arg = A(W, p)
        W.call(f, E, S(W, 'n'), arg)
        eqv(r, 'set_gravity stores the acceleration', W, W.get(b, 'gravity'), p, f)
        r.fact('set_gravity stores a copy', storage(W.get(b, 'gravity')) != arg.oid, f, 'shares the caller\'s array')
        check_watch(r, W, 'set_gravity keeps', f, wb, ob, ('gravity',))
    W, f, E, b, wb, wo, ob, oo = setup('get_material_coordinates')
    with r.section('get_material_coordinates', f):
        out = W.call(f, E, S(W, 'n'))
        for q in range(3):
            r.eq('get_material_coordinates returns the undeformed coordinates [%d]' % q, W.ip.sel(out, (n, lift(q)), W.st), ob['x0 of a node [%d]' % q], f)
        r.fact('get_material_coordinates hands out a copy', storage(out) is not None and storage(out) != storage(W.get(b, 'x0')), f, 'the returned array is the body\'s own storage')
        r.fact('get_material_coordinates changes nothing', not [e for e in engine_events(W) if preexisting(W, e)], f, 'it mutates the engine')
    W, f, E, b, wb, wo, ob, oo = setup('set_spatial_coordinates')
    with r.section('set_spatial_coordinates', f):
        N = W.get(b, 'x').shape[0]
        arg = W.ip.sarr(lambda ix: tm.app('newx', *ix), (N, 3), W.st)
        W.call(f, E, S(W, 'n'), arg)
        for q in range(3):
            r.eq('set_spatial_coordinates stores the coordinates [%d]' % q, W.ip.sel(W.get(b, 'x'), (n, lift(q)), W.st), tm.app('newx', n, lift(q)), f)
        r.fact('set_spatial_coordinates stores a copy', storage(W.get(b, 'x')) not in (storage(arg), None), f, 'the caller\'s array becomes the body\'s storage')
        check_watch(r, W, 'set_spatial_coordinates keeps', f, wb, ob, ('x ',))
    for word, fx in (('fixed', TRUE), ('FIXED', TRUE), ('Fixed', TRUE), ('free', FALSE), ('Free', FALSE), ('FREE', FALSE), ('fReE', FALSE)):
        W, f, E, b, wb, wo, ob, oo = setup('set_type')
        with r.section('set_type', f, total=True):
            W.call(f, E, S(W, 'n'), word)
            r.eq('set_type(%s) fixes or frees as asked' % word, W.ip.truth(W.get(b, 'is_fixed'), W.st), fx, f, care=W.st.pc, hooks=[str_hook])
    with r.section('set_type', f):
        check_watch(r, W, 'set_type keeps', f, wb, ob, ('fixed',))
    for fn, args, stored_ in (('set_elasticity', ['E', 'nu'], {'E': 'E', 'nu': 'nu'}), ('set_viscosity', ['c'], {'c': 'c'}), ('set_mass_density', ['rho'], {'rho': 'rho'})):
        W = soft(r)
        f = W.fn(AP + fn)
        with r.section(fn, f):
            m = stored(W, 'materials', S(W, 'm'))
            old = {a: W.get(m, a) for a in ('E', 'nu', 'c', 'rho')}
            W.call(f, eng(W), S(W, 'm'), *[tm.sym('new' + a) for a in args])
            for a in ('E', 'nu', 'c', 'rho'):
                r.eq('%s %s %s' % (fn, 'stores' if a in stored_ else 'keeps', a), W.get(m, a), tm.sym('new' + a) if a in stored_ else old[a], f, care=W.st.pc)
    W = soft(r)
    f = W.fn(AP + 'set_constitutive_model')
    with r.section('set_constitutive_model', f):
        mo = NObj('model', {a: Native(lambda ip, st, a_, kw: ZERO) for a in ('pk1_stress', 'energy_density')}, TRUE)
        W.call(f, eng(W), S(W, 'm'), mo)
        r.fact('set_constitutive_model stores the model', W.get(stored(W, 'materials', S(W, 'm')), 'constitutive_model') is mo, f, 'another model')
    W = soft(r)
    f = W.fn(AP + 'create_material')
    with r.section('create_material', f):
        W.call(f, eng(W), S(W, 'm'))
        m = stored(W, 'materials', S(W, 'm'))
        r.fact('a new material carries its name', W.ip.same(W.get(m, 'name'), S(W, 'm')), f, 'another name')
        for a, v in (('c', 0), ('rho', 1000), ('E', 10 ** 5), ('nu', tm.lift(.3))):
            r.eq('a new material has the default %s' % a, W.get(m, a), lift(v), f)
    # assigning a material builds the element matrices of that material
    for lump in (TRUE, FALSE):
        W = soft(r)
        f = W.fn(AP + 'set_material')
        with r.section('set_material', f):
            Tk, K = TETS[2], len(TETS[2])
            b = stored(W, 'bodies', S(W, 'n'))
            vol = V('vol', K)
            W.ip.setattr(b, 'T', ints(W, Tk), W.st)
            W.ip.setattr(b, 'vol0', A(W, vol), W.st)
            W.ip.setattr(b, 'is_lumped', lump, W.st)
            W.call(f, eng(W), S(W, 'n'), S(W, 'm'))
            m = stored(W, 'materials', S(W, 'm'))
            r.fact('set_material assigns the named material', W.ip.same(W.get(b, 'material_description'), m), f, 'another material')
            for a, co in (('M_array', 'rho'), ('C_array', 'c')):
                want = zeros(K, 4, 4, 3, 3)
                for e in range(K):
                    for i in range(4):
                        for j in range(4):
                            w = (ONE / 4 if i == j else ZERO) if lump is TRUE else (ONE / 10 if i == j else ONE / 20)
                            for q in range(3):
                                want[e, i, j, q, q] = W.get(m, co) * vol[e] * w
                eqv(r, 'set_material builds the %s %s of the material' % ('lumped' if lump is TRUE else 'consistent', a), W, W.get(b, a), want, f)


def conditions(r):
    """boundary conditions come from the inside of the level set in the undeformed body"""
    N = 5
    for prior in (0, 1):
        W = world(r)
        f = W.fn(AP + 'create_dirichlet_conditions')
        with r.section('create_dirichlet_conditions', f):
            E = W.new(TY + 'Engine')
            b = W.new(TY + 'SoftBody', 'a')
            x0 = V('x0', (N, 3))
            W.ip.setattr(b, 'x0', A(W, x0), W.st)
            W.ip.setattr(b, 'x', A(W, V('x', (N, 3))), W.st)
            W.ip.np.setitem(W.get(E, 'bodies'), 'a', b, W.st)
            if prior:
                W.ip.setattr(b, 'dirichlet_conditions', W.ip.lst([W.new(TY + 'DirichletCondition', lift(7), A(W, V('old', 3)))], W.st), W.st)
            sgn = {}
            phi = lambda ip, st, a, kw: tm.app('level', *ip.cells(a[0], st))
            W.call(f, E, 'a', Native(phi))
            L = W.get(b, 'dirichlet_conditions')
            cnt = lift(prior) + sum((tm.ite(tm.le(tm.app('level', *x0[i]), ZERO), ONE, ZERO) for i in range(N)), ZERO)
            r.eq('one condition per inside node%s' % (' after earlier ones' if prior else ''), W.ip.np.length(L, W.st), cnt, f)
            # which conditions: enumerate which nodes are inside
            seen = conds(W, L)
            r.fact('earlier conditions are kept%s' % (' ' * prior), not prior or (bool(seen) and seen[0][0] is TRUE and tm.equal(seen[0][1], lift(7)).equal is True), f, 'the first condition is gone')
            for k, (g, i, v, mk) in enumerate(seen[prior:]):
                i_ = i.const() if isinstance(i, T) else i
                if i_ is None or not 0 <= int(i_) < N:
                    r.undecided('condition %d' % k, f, 'unknown node %s' % (i,))
                    continue
                i_ = int(i_)
                r.eq('node %d is constrained exactly when it is inside' % i_, g, tm.le(tm.app('level', *x0[i_]), ZERO), f)
                eqv(r, 'node %d is held at its undeformed position' % i_, W, A(W, v), x0[i_], f)
            if len(seen) - prior != N:
                r.undecided('conditions', f, '%d conditional entries' % (len(seen) - prior))
            r.fact('the conditions keep copies of the coordinates', all(storage(mk) != storage(W.get(b, 'x0')) for *_, mk in seen), f, 'shared storage')
    W = world(r)
    f = W.fn(AP + 'create_traction_conditions')
    with r.section('create_traction_conditions', f):
        E = W.new(TY + 'Engine')
        b = W.new(TY + 'SoftBody', 'a')
        x0 = V('x0', (N, 3))
        sf = [[0, 2, 1], [3, 1, 4], [4, 0, 3]]
        for a, v in (('x0', A(W, x0)), ('x', A(W, V('x', (N, 3)))), ('surface', ints(W, sf))):
            W.ip.setattr(b, a, v, W.st)
        W.ip.np.setitem(W.get(E, 'bodies'), 'a', b, W.st)
        load = V('load', 3)
        arg = A(W, load)
        W.call(f, E, 'a', Native(lambda ip, st, a, kw: tm.app('level', *ip.cells(a[0], st))), arg)
        L = W.get(b, 'traction_conditions')
        ins = [tm.le(tm.app('level', *x0[i]), ZERO) for i in range(N)]
        got = entries(W, L)
        if len(got) != 3:
            r.undecided('traction conditions', f, '%d conditional entries' % len(got))
        for k, (g, o) in enumerate(got[:3]):
            t = sf[k]
            r.eq('triangle %d is loaded exactly when all its corners are inside' % k, g, ins[t[0]] & ins[t[1]] & ins[t[2]], f)
            for a, i in zip('ijk', t):
                r.eq('loaded triangle %d has corner %s' % (k, a), W.get(o, a), lift(i), f)
            eqv(r, 'triangle %d carries the load' % k, W, W.get(o, 'traction'), load, f)
            r.fact('the load of triangle %d is a copy' % k, storage(W.get(o, 'traction')) != arg.oid, f, 'shared storage')
        eqv(r, 'the load argument is left alone', W, arg, load, f)


def entries(W, L):
    """(condition, element) of a list built by guarded appends"""
    out = []
    for seg in W.ip.np.iterate(L, W.st):
        if seg[0] != 'c':
            raise Unsupported('collection of unknown content')
        out.append((seg[1], seg[2]))
    return out


def conds(W, L):
    return [(g, W.get(o, 'idx'), cells(W, W.get(o, 'value')), W.get(o, 'value')) for g, o in entries(W, L)]


def may_fail(ip, st, name):
    """the modelled computation rejects some inputs"""
    p = tm.pred('bsym', 'fails:' + name)
    ip.event('raise', State(st.env, st.heap, st.pc & p), (name,))
    st.pc = st.pc & ~p


SORTED = [[1, 2, 0, 3], [4, 0, 2, 3], [5, 2, 4, 3]]       # consistently oriented, shares faces, uses every node
FACES = [[t[a] for a in f] for t in SORTED for f in ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))]


def boundary_faces(T):
    fs = [[t[a] for a in f] for t in T for f in ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))]
    return [f for f in fs if sum(set(f) == set(g) for g in fs) == 1]


def rot(t):
    i = t.index(min(t))
    return tuple(t[i:] + t[:i])


def creation(r):
    """a new soft body: sorted copy of the mesh, its own precomputed quantities, at rest, next free slots"""
    FUN, SM, GR, BV = 'rainbow.math.functions.', 'rainbow.geometry.surface_mesh.', 'rainbow.geometry.grid3.', 'rainbow.geometry.kdop_bvh.'
    HG = 'rainbow.geometry.spatial_hashing.HashGird.'
    N = 6
    want_s = {rot(f) for f in boundary_faces(SORTED)}
    for hashing in (TRUE, FALSE):
        for prior in (0, 1):
            W = world(r)
            f = W.fn(AP + 'create_soft_body')
            tag = '%s, %s' % ('hashing' if hashing is TRUE else 'tree', 'second body' if prior else 'first body')
            with r.section('create_soft_body (%s)' % tag, f):
                E = W.new(TY + 'Engine')
                P = W.get(E, 'params')
                pp = {}
                for a in ('envelope', 'resolution', 'K', 'bvh_chunk_size'):
                    pp[a] = tm.sym('param:' + a)
                    W.ip.setattr(P, a, pp[a], W.st)
                W.ip.setattr(P, 'use_spatial_hashing', hashing, W.st)
                h0, c0 = tm.sym('hsize'), tm.sym('csize') if prior else ZERO
                hg = W.get(E, 'hash_grid')
                W.ip.setattr(hg, 'hash_table_size', h0, W.st)
                W.ip.setattr(hg, 'cell_size', c0, W.st)
                n0 = tm.sym('int:nodes')
                W.ip.setattr(E, 'number_of_nodes', n0, W.st)
                if prior:
                    W.ip.np.setitem(W.get(E, 'bodies'), 'a', W.new(TY + 'SoftBody', 'a'), W.st)
                md = W.ip.np.getitem(W.get(E, 'materials'), 'default', W.st)
                for a in ('rho', 'c'):
                    W.ip.setattr(md, a, tm.sym('default.' + a), W.st)
                freeze(W)
                V0, T0 = V('V', (N, 3)), [[0, 1, 2, 3], [1, 2, 3, 4], [2, 3, 4, 5]]
                aV, aT = A(W, V0), ints(W, T0)
                Vs = V('V_sorted', (N, 3))
                log = {}

                def variance(ip, st, a, kw):
                    log['variance'] = a
                    return ip.arr(V('axis', 3), st)

                def sort(ip, st, a, kw):
                    log['sort'] = (cells(W, ip.getattr(a[0], 'V', st)).copy(), cells(W, ip.getattr(a[0], 'T', st)).copy(), a[1])
                    for q, v in (('V', Vs), ('T', arr(SORTED))):
                        ip.setattr(a[0], q, ip.arr(v, st), st)

                def rec(name, names, ret, fails=True):
                    def g(ip, st, a, kw):
                        d = dict(zip(names, a))
                        d.update(kw)
                        if fails:
                            may_fail(ip, st, name)
                        for q in list(d):
                            if W.ip.np.isarr(d[q]):
                                d[q + '_'] = cells(W, d[q]).copy()
                        log.setdefault(name, []).append(d)
                        return ret
                    return g
                m = W.ip.models
                m[FUN + 'direction_of_most_variance'] = variance
                m[SM + 'axis_sort'] = sort
                m[GR + 'create_signed_distance'] = rec('field', ['V', 'F', 'I', 'J', 'K', 'boundary'], NObj('field', {}))
                m[BV + 'make_bvh'] = rec('tree', ['vertices', 'triangles', 'K', 'chunk_size', 'envelope'], NObj('tree', {}))
                opt = tm.sym('optimal')
                m[HG + 'compute_optial_cell_size'] = lambda ip, st, a, kw: (log.__setitem__('cell', [x for x in a if W.ip.np.isarr(x)]), opt)[1]
                inv = NA + 'compute_inverse_D0'
                if not isinstance(W.fn(inv), str) and hasattr(W.fn(inv), 'node'):
                    def inverse(ip, st, a, kw, busy=[]):
                        may_fail(ip, st, 'degenerate')
                        c = cells(W, a[0]), cells(W, a[1])
                        out = zeros(len(c[1]), 3, 3)
                        for e, t in enumerate(c[1]):
                            p = [c[0][int(lift(i).const())] for i in t]
                            out[e] = inv3_(arr([[p[j + 1][i] - p[0][i] for j in range(3)] for i in range(3)]))
                        return ip.arr(out, st)
                    m[inv] = inverse
                W.ip.events.clear()
                W.call(f, E, 'new', aV, aT)
                pc = W.st.pc
                bad = first_change(W)
                r.fact('a mesh that is rejected leaves the engine as it was (%s)' % tag, bad is None, f, bad and 'the %s at %s happens before the mesh can be rejected at %s' % (bad[0].kind, bad[0].loc, bad[1].loc))
                b = W.ip.np.getitem(W.get(E, 'bodies'), 'new', W.st)
                get = lambda a: W.get(b, a)
                kw = dict(care=pc)
                r.fact('the body is stored under its name (%s)' % tag, get('name') == 'new', f, 'another name')
                r.eq('the body gets the next index (%s)' % tag, get('idx'), lift(prior), f, **kw)
                r.eq('the body starts at the first free node (%s)' % tag, get('offset'), n0, f, **kw)
                r.eq('its nodes are added to the number of nodes (%s)' % tag, W.get(E, 'number_of_nodes'), n0 + N, f, **kw)
                for a in ('x0', 'x'):
                    eqv(r, '%s are the sorted coordinates (%s)' % (a, tag), W, get(a), Vs, f, **kw)
                eqv(r, 'a new body is at rest (%s)' % tag, W, get('u'), zeros(N, 3), f, **kw)
                eqv(r, 'elements are the sorted ones (%s)' % tag, W, get('T'), arr(SORTED), f, **kw)
                so = log.get('sort')
                if so is not None:
                    eqv(r, 'the mesh that is sorted is the given one (%s)' % tag, W, A(W, so[0]), V0, f)
                    eqv(r, 'the elements that are sorted are the given ones (%s)' % tag, W, A(W, so[1]), arr(T0), f)
                eqv(r, 'the given coordinates are left alone (%s)' % tag, W, aV, V0, f)
                eqv(r, 'the given elements are left alone (%s)' % tag, W, aT, arr(T0), f)
                sts = [storage(get(a)) for a in ('x0', 'x', 'u')]
                r.fact('coordinates, positions and velocities are separate copies (%s)' % tag, len(set(sts)) == 3 and storage(aV) not in sts and storage(get('T')) != storage(aT), f, 'shared storage')
                eqv(r, 'volumes are those of the undeformed elements (%s)' % tag, W, get('vol0'), arr([vol_of([Vs[i] for i in t]) for t in SORTED]), f, **kw)
                wg, wi = zeros(3, 3, 4), zeros(3, 3, 3)
                for e, t in enumerate(SORTED):
                    p = [Vs[i] for i in t]
                    for n, g in enumerate(grads(p)):
                        wg[e, :, n] = -g * vol_of(p)
                    wi[e] = inv3_(arr([[p[j + 1][i] - p[0][i] for j in range(3)] for i in range(3)]))
                eqv(r, 'face vectors are those of the undeformed elements (%s)' % tag, W, get('gradN0'), wg, f, **kw)
                eqv(r, 'inverse edge matrices are those of the undeformed elements (%s)' % tag, W, get('invD0'), wi, f, **kw)
                sf = cells(W, get('surface'))
                tri = [[int(lift(x).const()) for x in t] for t in sf]
                r.fact('the surface is the outward boundary (%s)' % tag, {rot(t) for t in tri} == want_s and len(tri) == len(want_s), f, 'faces %s' % tri)
                ow = cells(W, get('owners'))
                ok = len(ow) == len(tri) and all(set(tri[k]) <= set(SORTED[int(lift(ow[k][0]).const())]) for k in range(len(tri)))
                r.fact('every surface triangle knows the element it belongs to (%s)' % tag, ok, f, 'owners %s' % (ow,))
                fd = (log.get('field') or [{}])[0]
                if r.fact('a distance field is made (%s)' % tag, len(log.get('field', [])) == 1, f, 'none'):
                    r.fact('the body keeps its distance field (%s)' % tag, isinstance(get('grid'), NObj), f, 'another field')
                    eqv(r, 'the distance field is of the undeformed body (%s)' % tag, W, A(W, fd['V_']), Vs, f)
                    r.fact('the distance field is of the surface (%s)' % tag, {rot([int(lift(x).const()) for x in t]) for t in fd['F_']} == want_s, f, 'another surface')
                    r.le('the distance field covers the contact envelope (%s)' % tag, pp['envelope'], fd['boundary'], f, hooks=[pos_hook('param:envelope')])
                    for a in 'IJK':
                        r.eq('resolution of the distance field %s (%s)' % (a, tag), fd[a], pp['resolution'], f)
                if hashing is TRUE:
                    r.eq('the hash table grows by the number of triangles (%s)' % tag, W.get(hg, 'hash_table_size'), h0 + len(tri), f, **kw)
                    r.eq('the cell size follows the meshes (%s)' % tag, W.get(hg, 'cell_size'), (opt + c0) / 2 if prior else opt, f, care=pc & tm.lt(ZERO, c0) if prior else pc)
                else:
                    td = (log.get('tree') or [{}])[0]
                    if r.fact('a bounding volume tree is made (%s)' % tag, len(log.get('tree', [])) == 1, f, 'none'):
                        r.fact('the body keeps its tree (%s)' % tag, isinstance(get('bvh'), NObj), f, 'another tree')
                        eqv(r, 'the tree holds the spatial coordinates (%s)' % tag, W, A(W, td['vertices_']), Vs, f)
                        r.eq('the tree uses the envelope (%s)' % tag, td['envelope'], pp['envelope'], f)
                        r.eq('the tree uses the directions (%s)' % tag, td['K'], pp['K'], f)
                r.fact('a new body has the default material (%s)' % tag, W.ip.same(get('material_description'), md), f, 'another material')
                for a, co in (('M_array', 'rho'), ('C_array', 'c')):
                    want = zeros(3, 4, 4, 3, 3)
                    for e, t in enumerate(SORTED):
                        for i in range(4):
                            for q in range(3):
                                want[e, i, i, q, q] = tm.sym('default.' + co) * vol_of([Vs[k] for k in t]) / 4
                    eqv(r, 'a new body has the default %s (%s)' % (a, tag), W, get(a), want, f, **kw)
                r.fact('a new body is free (%s)' % tag, W.ip.truth(get('is_fixed'), W.st) is FALSE, f, 'it is fixed')
                for a in ('dirichlet_conditions', 'traction_conditions'):
                    r.eq('a new body has no %s (%s)' % (a, tag), W.ip.np.length(get(a), W.st), ZERO, f)
                eqv(r, 'a new body has earth gravity (%s)' % tag, W, get('gravity'), arr([0, lift(-9.82), 0]), f)
    W = world(r)
    with r.section('duplicate body', f):
        E = W.new(TY + 'Engine')
        W.ip.np.setitem(W.get(E, 'bodies'), 'a', W.new(TY + 'SoftBody', 'a'), W.st)
        W.ip.opaque |= {FUN + 'direction_of_most_variance', SM + 'axis_sort', GR + 'create_signed_distance', NA + 'compute_inverse_D0', NA + 'compute_outward_face_vectors',
                        'rainbow.geometry.volume_mesh.compute_volumes', 'rainbow.geometry.volume_mesh.compute_neighbors', 'rainbow.geometry.volume_mesh.compute_surface'}
        done = True
        try:
            W.call(f, E, 'a', A(W, V('V', (4, 3))), ints(W, [[0, 1, 2, 3]]))
            done = W.st.pc is not FALSE
        except Dead:
            done = False
        r.fact('a second body of the same name is rejected', not done, f, 'it is accepted')


def inv3_(M):
    from .rules_soft import inv3
    return inv3(M)


def freeze(W):
    """everything that exists now counts as existing before the call"""
    W.frozen = set(W.st.heap)


def S08(r):
    """simulate advances time by exactly the requested amount, in steps no longer than the time step"""
    for stepper in ('present', 'none'):
        sch = dict(SOFT_SCHEMA)
        if stepper == 'none':
            sch['Engine', 'stepper'] = 'none'
        W = soft(r, schema=sch)
        f = W.fn(AP + 'simulate')
        E = eng(W)
        P = W.get(E, 'params')
        ts = W.get(P, 'time_step')
        Tt, dbg = tm.sym('T'), tm.pred('bsym', 'debug')
        calls, made = [], []
        W.ip.setattr(E, 'ghost', ZERO, W.st)

        def step(ip, st, args, kw):
            a = dict(zip(['self', 'dt', 'engine', 'debug_on'], args))
            a.update(kw)
            calls.append((a, st.pc))
            ip.setattr(a['engine'], 'ghost', ip.getattr(a['engine'], 'ghost', st) + ip.np.num(a['dt'], st), st)

        def init(ip, st, args, kw):
            a = dict(zip(['self', 'engine', 'debug_on'], args))
            a.update(kw)
            if isinstance(a.get('engine'), Obj):
                made.append((a, st.pc))
        W.ip.models[SO + 'SemiImplicitStepper.step'] = step
        W.ip.models[SO + 'SemiImplicitStepper.__init__'] = init
        with r.section('simulate (stepper %s)' % stepper, f):
            W.call(f, E, Tt, dbg)
            pc = W.st.pc
            pos = [pos_fields(ts)]
            r.eq('a non-positive duration is rejected (stepper %s)' % stepper, ~pc, tm.le(Tt, ZERO), f)
            if not r.fact('the engine is stepped (stepper %s)' % stepper, bool(calls), f, 'no step is taken'):
                continue
            if stepper == 'none':
                r.fact('a missing stepper is created once, for the engine', len(made) == 1 and W.ip.same(made[0][0].get('engine'), E), f, '%d steppers' % len(made))
            else:
                r.fact('an existing stepper is kept', not made, f, 'it is replaced')
            for a, g in calls:
                r.fact('the given engine is stepped (stepper %s)' % stepper, W.ip.same(a['engine'], E), f, 'another engine')
                r.eq('the debug flag is handed to the stepper (stepper %s)' % stepper, W.ip.truth(a.get('debug_on', FALSE), W.st), dbg, f)
            for n, (a, g) in enumerate(calls):
                r.le('a step is not longer than the time step [%d] (stepper %s)' % (n, stepper), a['dt'], ts, f, care=g, hooks=pos)
            fin = W.get(E, 'ghost')
            if not {a for a in tm.deep_atoms(fin) if a.op in ('mu', 'trip', 'sum', 'lastof', 'supr')}:
                r.eq('simulated time is the requested time (stepper %s)' % stepper, fin, Tt, f, care=pc, hooks=pos)
                continue
            L = next((L for L in reversed(W.ip.loops) if any('ghost' in str(l) for l in L.phis)), None) or next((L for L in reversed(W.ip.loops) if L.cond is not None), None)
            if L is None:
                r.undecided('time accounting', f, 'time stepping loop not found')
                continue
            time_recurrence(r, f, L, fin, Tt, ts)


def S09(r):
    """soft material interaction lookup"""
    L = TY + 'SurfacesInteractionLibrary'
    vals = lambda W, x: [choice_item(W, x, 'mu', i) for i in range(3)]
    hk = [str_hook]
    W = soft(r)
    f = W.fn(L + '.get_interaction')
    with r.section('lookup', f, total=True):
        lib = W.get(eng(W), 'surfaces_interactions')
        x, y = S(W, 'x'), S(W, 'y')
        p, q = vals(W, W.meth(lib, 'get_interaction', x, y)), vals(W, W.meth(lib, 'get_interaction', y, x))
        for i, (a, b) in enumerate(zip(p, q)):
            r.eq('material lookup does not depend on the order [%d]' % i, a, b, f, hooks=hk, samples=60)
        e1 = W.ip.truth(W.meth(lib, 'exist_interaction', x, y), W.st)
        e2 = W.ip.truth(W.meth(lib, 'exist_interaction', y, x), W.st)
        r.eq('existence does not depend on the order', e1, e2, f, hooks=hk, samples=60)
        d = vals(W, W.meth(lib, 'get_interaction', 'default', 'default'))
        for i, (a, b) in enumerate(zip(p, d)):
            r.eq('an unknown pair behaves like the default [%d]' % i, a, b, f, hooks=hk, care=~e1, samples=60)
        s = W.get(lib, 'storage')
        r.holds('a pair stored in name order is found', e1, f, care=W.ip.np.contains(s, (x, y), W.st) & tm.lt(W.ip.np.num(x, W.st), W.ip.np.num(y, W.st)), hooks=hk)
        r.fact('looking up changes nothing', not [e for e in engine_events(W) if preexisting(W, e)], f, 'it mutates the library')
    W = soft(r)
    f = W.fn(AP + 'create_surfaces_interaction')
    with r.section('create', f):
        E = eng(W)
        lib = W.get(E, 'surfaces_interactions')
        x, y, z, u = [S(W, n) for n in 'xyzu']
        before_ = vals(W, W.meth(lib, 'get_interaction', z, u))
        mu = tm.sym('mu')
        W.call(f, E, x, y, mu)
        pc = W.st.pc
        for t, (a, b) in (('as created', (x, y)), ('with the names swapped', (y, x))):
            r.eq('a created interaction is found %s' % t, vals(W, W.meth(lib, 'get_interaction', a, b))[0], mu, f, hooks=hk, care=pc, samples=60)
            r.holds('a created interaction exists %s' % t, W.ip.truth(W.meth(lib, 'exist_interaction', a, b), W.st), f, hooks=hk, care=pc)
        eq = lambda a, b: W.ip.np.keyeq(a, b, W.st)
        same = (eq(x, z) & eq(y, u)) | (eq(x, u) & eq(y, z))
        isd = eq(x, 'default') & eq(y, 'default')
        for i, (c, d) in enumerate(zip(vals(W, W.meth(lib, 'get_interaction', z, u)), before_)):
            r.eq('other interactions are untouched [%d]' % i, c, d, f, hooks=hk, care=pc & ~same & ~isd, samples=60)
    W = soft(r)
    f = W.fn(L + '.__init__')
    with r.section('new library', f):
        lib = W.new(L)
        r.fact('a new library has a default interaction', W.ip.truth(W.meth(lib, 'exist_interaction', 'default', 'default'), W.st) is TRUE, f, 'no default')
        r.fact('a new library knows no other pair', W.ip.truth(W.meth(lib, 'exist_interaction', 'steel', 'wood'), W.st) is FALSE, f, 'unknown pair exists')
        a, b = vals(W, W.meth(lib, 'get_interaction', 'steel', 'wood')), vals(W, W.meth(lib, 'get_interaction', 'default', 'default'))
        for i, (c, d) in enumerate(zip(a, b)):
            r.eq('new library: unknown pair behaves like the default [%d]' % i, c, d, f)
