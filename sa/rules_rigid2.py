"""Rigid body simulator: the scripting interface (time, guards, frames, materials, storage)."""
from .lib import *
from .rules_rigid import (rworld, body, STEP, ST, choice_cells, choice_attr, choice_item, unit_fields, storage, nocon_hook, _params_hook,
                          pos_fields, hinge, tangents, ons_hook)

API = SR + 'api.'


def S(W, n):
    """an arbitrary string"""
    return W.ip.make_sym('s', ('root', n), None, W.st)


def str_rank(s, k, spread=3):
    if k[0] == 'c':
        return ('const', k[1])
    h = int(abs(s.basic(tm.atom('sym', 'rank:%s' % (k,)))) * 1000) % spread
    return ('const', 'default') if h == 0 and s.seed % 3 == 0 else ('rank', h)


def str_hook(s, a):
    """interpretations in which strings are drawn from a small ordered set, so that equal names occur"""
    def norm(k):
        if isinstance(k, tuple):
            if k and k[0] == 'choice':
                for g, x in k[1:]:
                    if s.B(g):
                        return norm(x)
            if len(k) == 2 and k[0] == 'sym' and isinstance(k[1], str) and k[1].endswith('.None'):
                return str_rank(s, k)
            if len(k) == 2 and k[0] == 'c':
                return str_rank(s, k)
            return tuple(norm(x) for x in k)
        if isinstance(k, T):
            return round(s.T(k), 6)
        return k
    if a.op == 'val' and isinstance(a.args[0], tuple) and a.args[0][0] in ('sym', 'c'):
        r = norm(a.args[0])
        return {'const': -1.0}.get(r[0], r[1] if r[0] == 'rank' else 0.0) if r != ('const', 'default') else -1.0
    if a.op == 'keyeq':
        x, y = norm(a.args[0]), norm(a.args[1])
        return x == y
    if a.op in ('in', 'idxof'):
        x = tuple(norm(y) for y in a.args)
        v = tm._h(s.seed, a.op, x).random()
        if a.op == 'in' and x[-1] == ('tup', ('const', 'default'), ('const', 'default')):
            return True
        return v < 0.5 if a.op == 'in' else 1000 * v
    if a.op == 'fld' or a.op == 'coll':
        return None


def R08(r):
    """simulate advances time by exactly the requested amount, in steps no longer than the time step"""
    W = rworld(r)
    f = W.fn(API + 'simulate')
    E = W.engine()
    P = W.get(E, 'params')
    ts = W.get(P, 'time_step')
    Tt, prof = tm.sym('T'), tm.pred('bsym', 'profiling')
    calls = []
    W.ip.setattr(E, 'ghost', ZERO, W.st)

    def step(ip, st, args, kw):
        names = ['self', 'dt', 'engine', 'profiling_on']
        a = dict(zip(names, args))
        a.update(kw)
        calls.append((a, st.pc))
        ip.setattr(a['engine'], 'ghost', ip.getattr(a['engine'], 'ghost', st) + ip.np.num(a['dt'], st), st)
    W.ip.models[STEP + '.step'] = step
    with r.section('simulate', f):
        W.call(f, E, Tt, prof)
        pc = W.st.pc
        pos = [pos_fields(ts)]
        r.eq('a non-positive duration is rejected', ~pc, tm.le(Tt, ZERO), f, care=TRUE)
        if not r.fact('the engine is stepped', bool(calls), f, 'no step is taken'):
            return
        for a, g in calls:
            r.fact('the given engine is stepped', W.ip.same(a['engine'], E), f, 'another engine')
            p = a.get('profiling_on', FALSE)
            r.eq('the profiling flag is handed to the stepper', W.ip.truth(p, W.st), prof, f)
        for n, (a, g) in enumerate(calls):
            r.le('a step is not longer than the time step [%d]' % n, a['dt'], ts, f, care=g, hooks=pos)
        fin = W.get(E, 'ghost')
        ks = {a for a in tm.deep_atoms(fin) if a.op in ('mu', 'trip', 'sum', 'lastof', 'supr')}
        if not ks:
            r.eq('simulated time is the requested time', fin, Tt, f, care=pc, hooks=pos)
            return
        L = next((L for L in reversed(W.ip.loops) if any('ghost' in str(l) for l in L.phis)), None) or next((L for L in reversed(W.ip.loops) if L.cond is not None), None)
        if L is None:
            r.undecided('time accounting', f, 'time stepping loop not found')
            return
        time_recurrence(r, f, L, fin, Tt, ts)


def time_recurrence(r, f, L, fin, Tt, ts):
    """the loop summary as a recurrence over the remaining time: T - (elapsed time)"""
    gl = next((l for l in L.phis if 'ghost' in str(l)), None)
    cond = L.cond
    tsa = ts.as_atom()
    rel = None
    if gl is not None:
        g0, gi, gs = L.phis[gl]
        for l, (p, i, s2) in [(gl, (g0, gi, gs))] + list(L.phis.items()):
            if not isinstance(p, T) or not isinstance(s2, T):
                continue
            for sg in (-1, 1):
                if rel is None and tm.equal(gs + sg * s2, g0 + sg * p, samples=8).equal is True:
                    if l == gl and g0.as_atom() not in (cond.atoms() if cond is not None else ()):
                        continue
                    rel = (p, i, sg)
    if rel is not None and cond is not None:
        p, i, sg = rel
        base = Tt - (gi + sg * i)
        rem = base + sg * p
        A_ = p.as_atom()

        def hk(s, a):
            if a == tsa:
                return [1.0, 0.25, 2.0, 0.01][s.seed % 4]
            if a.op == 'sym' and a.args[0] == 'T':
                return 1.7
            if a == A_:
                want = [0.0, 1e-6, 1e-3, 0.2, 1.0, 1.7, 1e-4][s.seed % 7]
                return (want - s.T(base)) * sg
        dt = gs - g0
        r.holds('the loop stops only when no time remains', tm.eq0(rem) | cond, f, hooks=[hk], need=40)
        r.le('a step does not overrun the requested time', dt, rem, f, care=cond & tm.lt(ZERO, rem), hooks=[hk])
        r.holds('every step makes progress', tm.lt(ZERO, dt), f, care=cond & tm.lt(ZERO, rem), hooks=[hk])
        return
    # no invariant between elapsed time and a variable: evaluate the recurrence at sample points
    if cond is None:
        r.undecided('time accounting', f, 'no variable tracks the remaining time')
        return
    ks = [a for a in cond.atoms() if a.op == 'sym' and str(a.args[0]).startswith('ι')]
    rec = [(p.as_atom(), i, s2) for l, (p, i, s2) in L.phis.items() if isinstance(p, T) and isinstance(i, T) and isinstance(s2, T)]
    have = {a for a, _, _ in rec}
    if any(a.op == 'sym' and str(a.args[0]).startswith('φ') and a not in have for x in [cond] + [s2 for a, i, s2 in rec if a in cond.atoms()] for a in tm.deep_atoms(x)):
        r.undecided('time accounting', f, 'no variable tracks the remaining time')
        return
    n_ok = 0
    for seed, (tv, sv) in enumerate([(1.0, 0.25), (1.0, 0.375), (0.5, 0.75), (2.0, 0.125), (1.0, 1.0), (1.5, 0.4375)]):
        val = {'T': tv}
        trip = []

        def hk(s, a):
            if a == tsa:
                return sv
            if a.op == 'sym' and a.args[0] == 'T':
                return tv
            if a.op == 'trip':
                return float(trip[0])
            if a.op == 'sum' and trip:
                i, n, g = a.args
                tot = 0.0
                for v in range(int(round(s.T(n)))):
                    s.bound[i] = float(v)
                    tot += s.T(g)
                del s.bound[i]
                return tot
        s = tm.Sample(seed, hooks=[hk])
        cur = {a: s.T(i) for a, i, _ in rec}
        end = {}
        for v in range(400):
            s = tm.Sample(seed, hooks=[hk])
            for kk in ks or [tm.atom('sym', 'ι0')]:
                s.bound[kk] = float(v)
            s.bound.update(cur)
            if not s.B(cond):
                trip.append(v)
                end = cur
                break
            cur = {a: s.T(s2) for a, _, s2 in rec}
        if not trip:
            r.fact('the time loop ends', False, f, 'with T=%g and time step %g the loop condition %s does not fail within 400 steps' % (tv, sv, cond))
            return
        try:
            got = end[gl and L.phis[gl][0].as_atom()] if gl is not None and isinstance(L.phis[gl][0], T) else tm.Sample(seed, hooks=[hk]).T(fin)
        except tm.Undef:
            continue
        n_ok += 1
        if abs(got - tv) > 1e-9:
            r.fact('simulated time is the requested time', False, f, 'with T=%g and time step %g the elapsed time is %g' % (tv, sv, got))
            return
    if n_ok > 2:
        r.fact('simulated time is the requested time', True, f, how='random interpretation')
    else:
        r.undecided('time accounting', f, 'closed form not evaluated')


def engine_events(W, muts=('setattr', 'arrwrite', 'dictset', 'setitem', 'listset', 'append', 'pop', 'clear', 'remove')):
    return [ev for ev in W.ip.events if ev.kind in muts]


MUTS = ("setattr", "arrwrite", "dictset", "setitem", "listset", "append", "pop", "clear", "remove")


def preexisting(W, ev):
    """the event changes something that existed before the call"""
    if ev.kind == 'setattr':
        o = ev.data[0]
        return isinstance(getattr(o, 'oid', o), tuple)
    o = ev.data[0]
    o = getattr(o, 'oid', o)
    return isinstance(o, tuple)


def guards():
    B3 = lambda n: (lambda W: A(W, V(n, 3)))
    s = lambda n: (lambda W: S(W, n))
    inb = lambda W, n: W.ip.np.contains(W.get(W.engine(), 'bodies'), S(W, n), W.st)
    inf = lambda W, n: W.ip.np.contains(W.get(W.engine(), 'forces'), S(W, n), W.st)
    ins = lambda W, n: W.ip.np.contains(W.get(W.engine(), 'shapes'), S(W, n), W.st)
    inh = lambda W, n: W.ip.np.contains(W.get(W.engine(), 'hinges'), S(W, n), W.st)
    g, al, be = tm.sym('g'), tm.sym('alpha'), tm.sym('beta')
    word = lambda W, n, ws: W.ip.np.contains(tuple(ws), S(W, n), W.st)
    fixed, free = ('fixed', 'Fixed', 'FIXED'), ('free', 'Free', 'FREE')

    def unused(W):
        E = W.engine()
        bd = W.ip.np.getitem(W.get(E, 'bodies'), S(W, 'n'), W.st)
        fo = W.ip.np.getitem(W.get(E, 'forces'), S(W, 'm'), W.st)
        return inb(W, 'n') & inf(W, 'm') & ~W.ip.np.contains(W.get(bd, 'forces'), fo, W.st)

    def newpair(W):
        k = W.meth(W.get(W.engine(), 'surfaces_interactions'), 'exist_interaction', S(W, 'a'), S(W, 'b'))
        mu = V('mu', 3)
        return ~W.ip.truth(k, W.st) & tm.le(ZERO, tm.sym('e')) & tm.le(ZERO, mu[0]) & tm.le(ZERO, mu[1]) & tm.le(ZERO, mu[2])

    def material(W):
        L = W.get(W.engine(), 'surfaces_interactions')
        return inb(W, 'n') & W.ip.truth(W.meth(L, 'exist_material', S(W, 'm')), W.st)
    def shaped(W):
        bd = W.ip.np.getitem(W.get(W.engine(), 'bodies'), S(W, 'n'), W.st)
        return inb(W, 'n') & ~W.ip.truth(W.ip.np.compare('Is', W.get(bd, 'shape'), None, W.st), W.st)
    out = [
        ('create_rigid_body', [s('n')], lambda W: ~inb(W, 'n')),
        ('create_hinge', [s('n')], lambda W: ~inh(W, 'n')),
        ('create_gravity_force', [s('n'), g, B3('up')], lambda W: ~inf(W, 'n') & tm.lt(ZERO, g)),
        ('create_damping_force', [s('n'), al, be], lambda W: ~inf(W, 'n') & tm.lt(ZERO, al) & tm.lt(ZERO, be)),
        ('connect_force', [s('n'), s('m')], unused),
        ('connect_shape', [s('n'), s('m')], lambda W: inb(W, 'n') & ins(W, 'm')),
        ('set_body_type', [s('n'), s('t')], lambda W: inb(W, 'n') & word(W, 't', fixed + free)),
        ('set_body_material', [s('n'), s('m')], material),
        ('create_surfaces_interaction', [s('a'), s('b'), tm.sym('e'), B3('mu')], newpair),
        ('set_mass_properties', [s('n'), tm.sym('d')], shaped),
        ('is_fixed_body', [s('n')], lambda W: inb(W, 'n')),
    ]
    for a in ('position', 'velocity', 'spin'):
        out.append(('set_' + a, [s('n'), B3('p')], lambda W: inb(W, 'n')))
        out.append(('get_' + a, [s('n')], lambda W: inb(W, 'n')))
    out.append(('set_orientation', [s('n'), lambda W: A(W, V('q', 4))], lambda W: inb(W, 'n')))
    out.append(('get_orientation', [s('n')], lambda W: inb(W, 'n')))
    out.append(('set_hinge', [s('h'), s('n'), s('m'), B3('o'), B3('a'), 'world'], lambda W: inh(W, 'h') & inb(W, 'n') & inb(W, 'm')))
    return out


def quiet(W, f):
    """a query made by the rule itself: its events do not count"""
    ev, pc = list(W.ip.events), W.st.pc
    try:
        return f(W)
    finally:
        W.ip.events[:] = ev
        W.st.pc = pc


def R10(r):
    """every call of the scripting interface is accepted exactly when its arguments are legal, and a rejected call changes nothing"""
    for fn, mk, legal in guards():
        sch = dict(RIGID_SCHEMA)
        if fn == 'set_mass_properties':
            sch['RigidBody', 'shape'] = ('choice', ['none', sch['RigidBody', 'shape']])
        W = rworld(r, opaque=['rainbow.geometry.kdop_bvh.make_bvh'], schema=sch)
        f = W.fn(API + fn)
        with r.section(fn, f):
            E = W.engine()
            args = [m(W) if callable(m) else m for m in mk]
            want = quiet(W, legal)
            try:
                W.call(f, E, *args)
                pc = W.st.pc
            except Dead:
                pc = FALSE
            r.eq('%s is accepted exactly for legal arguments' % fn, pc, want, f, hooks=[str_hook])
            raises = [ev for ev in W.ip.events if ev.kind == 'raise']
            r.count('raise sites', len(raises))
            evs = W.ip.events
            bad = None
            for i, ev in enumerate(evs):
                if ev.kind != 'raise':
                    continue
                for m in evs[:i]:
                    if m in raises or m.kind not in ('setattr', 'arrwrite', 'dictset', 'setitem', 'listset', 'append', 'pop', 'clear', 'remove'):
                        continue
                    if not preexisting(W, m):
                        continue
                    if (m.guard & ev.guard) is not FALSE:
                        bad = (m, ev)
            r.fact('%s changes nothing before it rejects' % fn, bad is None, f,
                   bad and 'the %s at %s happens before the raise at %s' % (bad[0].kind, bad[0].loc, bad[1].loc))


def field(W, o, a):
    return cells(W, W.get(o, a))


def stored(W, coll, name):
    return W.ip.np.getitem(W.get(W.engine(), coll), name, W.st)


def R11(r):
    """setters change exactly the named thing to a copy of the argument, getters hand out copies"""
    for nm, a, n in (('position', 'r', 3), ('orientation', 'q', 4), ('velocity', 'v', 3), ('spin', 'w', 3)):
        W = rworld(r)
        f = W.fn(API + 'get_' + nm)
        with r.section('get_' + nm, f):
            E = W.engine()
            name = S(W, 'n')
            out = W.call(f, E, name)
            b = stored(W, 'bodies', name)
            cur = W.get(b, a)
            eqv(r, 'get_%s returns the value of the named body' % nm, W, out, field(W, b, a), f)
            r.fact('get_%s hands out a copy' % nm, storage(out) is not None and storage(out) != storage(cur), f, 'the returned array is the body\'s own storage')
            r.fact('get_%s changes nothing' % nm, not [e for e in engine_events(W) if preexisting(W, e)], f, 'it mutates the engine')
        W = rworld(r)
        f = W.fn(API + 'set_' + nm)
        with r.section('set_' + nm, f):
            E = W.engine()
            name = S(W, 'n')
            c = V('p', n)
            arg = A(W, c)
            k = tm.sym('ιo')
            other = {x: field(W, body(W, k), x) for x in 'rqvw'}
            b = stored(W, 'bodies', name)
            before = {x: field(W, b, x) for x in 'rqvw'}
            W.ip.events.clear()
            W.call(f, E, name, arg)
            want = c / norm(c) if a == 'q' else c
            eqv(r, 'set_%s stores the given value' % nm, W, W.get(b, a), want, f)
            for x in 'rqvw':
                if x != a:
                    eqv(r, 'set_%s keeps %s' % (nm, x), W, W.get(b, x), before[x], f)
                eqv(r, 'set_%s leaves other bodies alone (%s)' % (nm, x), W, W.get(body(W, k), x), other[x], f)
            r.fact('set_%s stores a copy' % nm, storage(W.get(b, a)) != arg.oid, f, 'the caller\'s array becomes the body\'s storage')
            eqv(r, 'set_%s leaves its argument alone' % nm, W, arg, c, f)
    # creation
    W = rworld(r)
    f = W.fn(API + 'create_rigid_body')
    with r.section('create_rigid_body', f):
        E = W.engine()
        W.call(f, E, S(W, 'n'))
        b = stored(W, 'bodies', S(W, 'n'))
        r.eq('a new body gets the next free index', W.get(b, 'idx'), tm.app('len', 'bodies'), f)
        r.fact('a new body carries its name', W.ip.same(W.get(b, 'name'), S(W, 'n')), f, 'another name')
        for a, v in (('r', [0, 0, 0]), ('v', [0, 0, 0]), ('w', [0, 0, 0]), ('q', [1, 0, 0, 0])):
            eqv(r, 'a new body starts at rest in the origin (%s)' % a, W, W.get(b, a), arr(v), f)
        r.fact('a new body is free', W.ip.truth(W.get(b, 'is_fixed'), W.st) is FALSE, f, 'it is fixed')
        r.eq('a new body has no forces', W.ip.np.length(W.get(b, 'forces'), W.st), ZERO, f)
        r.fact('a new body has the default material', W.get(b, 'material') == 'default', f, 'another material')
        st = [storage(W.get(b, a)) for a in 'rvwq'] + [storage(W.get(b, 'inertia'))]
        r.fact('the state arrays of a body are separate', len(set(st)) == len(st), f, 'two state variables share storage')
        W.call(f, E, S(W, 'm'))
        b2 = stored(W, 'bodies', S(W, 'm'))
        if isinstance(b2, Obj):
            r.fact('two bodies share no state', not ({storage(W.get(b2, a)) for a in 'rvwq'} & set(st)) and storage(W.get(b2, 'forces')) != storage(W.get(b, 'forces')), f, 'two bodies share storage')
    W = rworld(r)
    f = W.fn(API + 'create_hinge')
    with r.section('create_hinge', f):
        E = W.engine()
        W.call(f, E, S(W, 'n'))
        b = stored(W, 'hinges', S(W, 'n'))
        r.eq('a new hinge gets the next free index', W.get(b, 'idx'), tm.app('len', 'hinges'), f)
        r.fact('a new hinge carries its name', W.ip.same(W.get(b, 'name'), S(W, 'n')), f, 'another name')
    W = rworld(r)
    f = W.fn(API + 'create_gravity_force')
    with r.section('create_gravity_force', f):
        E = W.engine()
        up = V('up', 3)
        arg = A(W, up)
        W.call(f, E, S(W, 'n'), tm.sym('g'), arg)
        b = stored(W, 'forces', S(W, 'n'))
        r.eq('gravity stores the acceleration', W.get(b, 'g'), tm.sym('g'), f)
        eqv(r, 'gravity stores the unit up direction', W, W.get(b, 'up'), up / norm(up), f)
        r.fact('gravity stores a copy of the direction', storage(W.get(b, 'up')) != arg.oid, f, 'shares the caller\'s array')
        eqv(r, 'create_gravity_force leaves its argument alone', W, arg, up, f)
    W = rworld(r)
    f = W.fn(API + 'create_damping_force')
    with r.section('create_damping_force', f):
        E = W.engine()
        W.call(f, E, S(W, 'n'), tm.sym('alpha'), tm.sym('beta'))
        b = stored(W, 'forces', S(W, 'n'))
        r.eq('damping stores the linear coefficient', W.get(b, 'alpha'), tm.sym('alpha'), f)
        r.eq('damping stores the angular coefficient', W.get(b, 'beta'), tm.sym('beta'), f)
    W = rworld(r)
    f = W.fn(API + 'connect_force')
    with r.section('connect_force', f):
        E = W.engine()
        b = stored(W, 'bodies', S(W, 'n'))
        fo = stored(W, 'forces', S(W, 'm'))
        n0 = W.ip.np.length(W.get(b, 'forces'), W.st)
        W.call(f, E, S(W, 'n'), S(W, 'm'))
        r.eq('connecting adds one force', W.ip.np.length(W.get(b, 'forces'), W.st), n0 + 1, f)
        r.fact('the connected force is the named one', W.ip.np.contains(W.get(b, 'forces'), fo, W.st) is TRUE, f, 'another force')
    W = rworld(r)
    f = W.fn(API + 'set_mass_properties')
    with r.section('set_mass_properties', f):
        E = W.engine()
        b = stored(W, 'bodies', S(W, 'n'))
        sh = W.get(b, 'shape')
        m0, i0 = W.get(sh, 'mass'), field(W, sh, 'inertia')
        W.call(f, E, S(W, 'n'), tm.sym('d'))
        r.eq('mass is density times unit mass', W.get(b, 'mass'), tm.sym('d') * m0, f)
        eqv(r, 'inertia is density times unit inertia', W, W.get(b, 'inertia'), i0 * tm.sym('d'), f)
        r.eq('the shared shape keeps its mass', W.get(sh, 'mass'), m0, f)
        eqv(r, 'the shared shape keeps its inertia', W, W.get(sh, 'inertia'), i0, f)
        r.fact('bodies do not share inertia storage with the shape', storage(W.get(b, 'inertia')) != storage(W.get(sh, 'inertia')), f, 'shared storage')
    W = rworld(r)
    f = W.fn(API + 'set_body_type')
    with r.section('set_body_type', f):
        E = W.engine()
        b = stored(W, 'bodies', S(W, 'n'))
        W.call(f, E, S(W, 'n'), S(W, 't'))
        fx = W.ip.np.contains(('fixed', 'Fixed', 'FIXED'), S(W, 't'), W.st)
        r.eq('set_body_type fixes or frees as asked', W.ip.truth(W.get(b, 'is_fixed'), W.st), fx, f, care=W.st.pc, hooks=[str_hook])
        r.eq('is_fixed_body reports the type', W.ip.truth(W.call(API + 'is_fixed_body', E, S(W, 'n')), W.st), W.ip.truth(W.get(b, 'is_fixed'), W.st), f, care=W.st.pc)


def R14(r):
    """material interaction lookup"""
    L = RT + '.SurfacesInteractionLibrary'

    def vals(W, x):
        return [choice_attr(W, x, 'epsilon')] + [choice_item(W, x, 'mu', i) for i in range(3)]
    hk = [str_hook]
    W = rworld(r)
    f = W.fn(L + '.get_interaction')
    with r.section('lookup', f):
        lib = W.get(W.engine(), 'surfaces_interactions')
        x, y = S(W, 'x'), S(W, 'y')
        p = vals(W, W.meth(lib, 'get_interaction', x, y))
        q = vals(W, W.meth(lib, 'get_interaction', y, x))
        for i, (a, b) in enumerate(zip(p, q)):
            r.eq('material lookup does not depend on the order [%d]' % i, a, b, f, hooks=hk, samples=60)
        e1 = W.ip.truth(W.meth(lib, 'exist_interaction', x, y), W.st)
        e2 = W.ip.truth(W.meth(lib, 'exist_interaction', y, x), W.st)
        r.eq('existence does not depend on the order', e1, e2, f, hooks=hk, samples=60)
        d = vals(W, W.meth(lib, 'get_interaction', 'default', 'default'))
        for i, (a, b) in enumerate(zip(p, d)):
            r.eq('an unknown pair behaves like the default [%d]' % i, a, b, f, hooks=hk, care=~e1, samples=60)
        s = W.get(lib, 'storage')
        key = lambda a, b: W.ip.np.contains(s, (a, b), W.st)
        r.holds('a pair stored in name order is found', e1, f, care=key(x, y) & tm.lt(W.ip.np.num(x, W.st), W.ip.np.num(y, W.st)), hooks=hk)
        m = W.ip.truth(W.meth(lib, 'exist_material', x), W.st)
        fm = W.fn(L + '.exist_material')
        k = tm.atom('sym', 'ι0')
        r.fact('looking up changes nothing', not [e for e in engine_events(W) if preexisting(W, e)], f, 'it mutates the library')
    W = rworld(r)
    f = W.fn(API + 'create_surfaces_interaction')
    with r.section('create', f):
        E = W.engine()
        lib = W.get(E, 'surfaces_interactions')
        x, y, z, u = [S(W, n) for n in 'xyzu']
        before = vals(W, W.meth(lib, 'get_interaction', z, u))
        dflt0 = vals(W, W.meth(lib, 'get_interaction', 'default', 'default'))
        mu, e = V('mu', 3), tm.sym('e')
        arg = A(W, mu)
        W.call(f, E, x, y, e, arg)
        pc = W.st.pc
        want = [e] + list(mu)
        for t, (a, b) in (('as created', (x, y)), ('with the names swapped', (y, x))):
            o = W.meth(lib, 'get_interaction', a, b)
            for i, (c, d) in enumerate(zip(vals(W, o), want)):
                r.eq('a created interaction is found %s [%d]' % (t, i), c, d, f, hooks=hk, care=pc, samples=60)
            r.holds('a created interaction exists %s' % t, W.ip.truth(W.meth(lib, 'exist_interaction', a, b), W.st), f, hooks=hk, care=pc)
        after = vals(W, W.meth(lib, 'get_interaction', z, u))
        eq = lambda a, b: W.ip.np.keyeq(a, b, W.st)
        same = (eq(x, z) & eq(y, u)) | (eq(x, u) & eq(y, z))
        isd = eq(x, 'default') & eq(y, 'default')
        for i, (c, d) in enumerate(zip(after, before)):
            r.eq('other interactions are untouched [%d]' % i, c, d, f, hooks=hk, care=pc & ~same & ~isd, samples=60)
        o = W.meth(lib, 'get_interaction', x, y)
        objs = [v for g, v in o.alts] if isinstance(o, Choice) else [o]
        r.fact('the interaction keeps its own copy of the friction coefficients', all(storage(W.get(v, 'mu')) != arg.oid for v in objs), f,
               'the caller\'s array becomes the interaction\'s storage')
        r.holds('materials of an interaction exist', W.ip.truth(W.meth(lib, 'exist_material', x), W.st), f, hooks=hk, care=pc)
    W = rworld(r)
    f = W.fn(L + '.__init__')
    with r.section('new library', f):
        lib = W.new(L)
        r.fact('a new library has a default interaction', W.ip.truth(W.meth(lib, 'exist_interaction', 'default', 'default'), W.st) is TRUE, f, 'no default')
        r.fact('a new library knows the default material', W.ip.truth(W.meth(lib, 'exist_material', 'default'), W.st) is TRUE, f, 'no default material')
        r.fact('a new library knows no other material', W.ip.truth(W.meth(lib, 'exist_material', 'steel'), W.st) is FALSE, f, 'unknown material exists')
        a = vals(W, W.meth(lib, 'get_interaction', 'steel', 'wood'))
        b = vals(W, W.meth(lib, 'get_interaction', 'default', 'default'))
        for i, (c, d) in enumerate(zip(a, b)):
            r.eq('new library: unknown pair behaves like the default [%d]' % i, c, d, f)


def qr(q, v):
    """rotation of v by the unit quaternion q"""
    return qmul(qmul(q, arr([ZERO] + list(v))), qconj(q))[1:]


def same_rotation(r, name, W, got, want, where, **kw):
    """two unit quaternions describe the same rotation"""
    g, w = cells(W, got), np.asarray(want, dtype=object)
    G, H = qmat(g), qmat(w)
    for ix in np.ndindex(3, 3):
        r.eq('%s%s' % (name, list(ix)), G[ix], H[ix], where, **kw)


def R09(r):
    """body states are gathered, advanced and scattered consistently; stabilization moves poses without touching velocities"""
    from .rules_rigid5 import step_sums
    step_sums(r)
    dt = tm.sym('dt')
    k = tm.sym('ιb')
    f = ST + '.copy_from_engine'
    W = rworld(r)
    with r.section('gather', f):
        f = W.fn(f)
        E = W.engine()
        S_ = W.new(ST)
        W.meth(S_, 'copy_from_engine', E)
        b = body(W, k)
        x, u = W.get(S_, 'x'), W.get(S_, 'u')
        for nm, vec, base, off in (('r', x, 7, 0), ('q', x, 7, 3), ('v', u, 6, 0), ('w', u, 6, 3)):
            c = field(W, b, nm)
            for i in range(len(c)):
                r.eq('gathering reads %s[%d] of every body' % (nm, i), W.ip.sel(vec, (base * k + off + i,), W.st), c[i], f)
        r.fact('gathering changes no body', not [e for e in engine_events(W) if preexisting(W, e)], f, 'it mutates the engine')
    W = rworld(r)
    f = W.fn(ST + '.copy_to_engine')
    with r.section('scatter', f):
        E = W.engine()
        S_ = W.new(ST)
        W.meth(S_, 'copy_from_engine', E)
        n = tm.app('len', 'bodies')
        W.ip.setattr(S_, 'x', W.ip.sarr(lambda idx: tm.app('newx', *idx), (7 * n,), W.st), W.st)
        W.ip.setattr(S_, 'u', W.ip.sarr(lambda idx: tm.app('newu', *idx), (6 * n,), W.st), W.st)
        W.meth(S_, 'copy_to_engine', E)
        b = body(W, k)
        for nm, op, base, off, m in (('r', 'newx', 7, 0, 3), ('q', 'newx', 7, 3, 4), ('v', 'newu', 6, 0, 3), ('w', 'newu', 6, 3, 3)):
            c = field(W, b, nm)
            for i in range(m):
                r.eq('scattering writes %s[%d] of every body' % (nm, i), c[i], tm.app(op, base * k + off + i), f)
    W = rworld(r)
    f = W.fn(ST + '.position_update')
    with r.section('pose update', f):
        E = W.engine()
        S_ = W.new(ST)
        W.meth(S_, 'copy_from_engine', E)
        b = body(W, k)
        n = tm.app('len', 'bodies')
        for tag, own in (('own velocity', True), ('given displacement', False)):
            W2 = rworld(r)
            E = W2.engine()
            S_ = W2.new(ST)
            W2.meth(S_, 'copy_from_engine', E)
            b = body(W2, k)
            R, Q4 = field(W2, b, 'r'), field(W2, b, 'q')
            fixed = W2.ip.truth(W2.get(b, 'is_fixed'), W2.st)
            if own:
                v, w = field(W2, b, 'v'), field(W2, b, 'w')
                W2.meth(S_, 'position_update', dt, E)
            else:
                uu = W2.ip.sarr(lambda idx: tm.app('du', *idx), (6 * n,), W2.st)
                v, w = arr([tm.app('du', 6 * k + i) for i in range(3)]), arr([tm.app('du', 6 * k + 3 + i) for i in range(3)])
                W2.meth(S_, 'position_update', dt, E, uu)
            x = W2.get(S_, 'x')
            q2 = Q4 + qmul(arr([ZERO] + list(w)), Q4) * (dt / 2)
            q2 = q2 / norm(q2)
            hk = [unit_fields(Q4)]
            for i in range(3):
                r.eq('free body position advances with the %s [%d]' % (tag, i), W2.ip.sel(x, (7 * k + i,), W2.st), R[i] + v[i] * dt, f, care=~fixed)
                r.eq('fixed body position is kept (%s) [%d]' % (tag, i), W2.ip.sel(x, (7 * k + i,), W2.st), R[i], f, care=fixed)
            for i in range(4):
                r.eq('free body orientation advances with the %s [%d]' % (tag, i), W2.ip.sel(x, (7 * k + 3 + i,), W2.st), q2[i], f, care=~fixed, hooks=hk)
                r.eq('fixed body orientation is kept (%s) [%d]' % (tag, i), W2.ip.sel(x, (7 * k + 3 + i,), W2.st), Q4[i], f, care=fixed, hooks=hk)
            u = W2.get(S_, 'u')
            vv, ww = field(W2, b, 'v'), field(W2, b, 'w')
            for i in range(3):
                r.eq('advancing the pose keeps the linear velocity (%s) [%d]' % (tag, i), W2.ip.sel(u, (6 * k + i,), W2.st), vv[i], f)
                r.eq('advancing the pose keeps the angular velocity (%s) [%d]' % (tag, i), W2.ip.sel(u, (6 * k + 3 + i,), W2.st), ww[i], f)
    W = rworld(r)
    f = W.fn(ST + '.velocity_update')
    with r.section('velocity update', f):
        E = W.engine()
        S_ = W.new(ST)
        W.meth(S_, 'copy_from_engine', E)
        n = tm.app('len', 'bodies')
        du = W.ip.sarr(lambda idx: tm.app('du', *idx), (6 * n,), W.st)
        u0 = [W.ip.sel(W.get(S_, 'u'), (6 * k + i,), W.st) for i in range(6)]
        x0 = [W.ip.sel(W.get(S_, 'x'), (7 * k + i,), W.st) for i in range(7)]
        W.meth(S_, 'velocity_update', du)
        for i in range(6):
            r.eq('velocity update adds the change [%d]' % i, W.ip.sel(W.get(S_, 'u'), (6 * k + i,), W.st), u0[i] + tm.app('du', 6 * k + i), f)
        for i in range(7):
            r.eq('velocity update keeps the pose [%d]' % i, W.ip.sel(W.get(S_, 'x'), (7 * k + i,), W.st), x0[i], f)
    W = rworld(r)
    f = W.fn(SR + 'steppers._apply_post_stabilization')
    with r.section('post stabilization', f):
        E = W.engine()
        S_ = W.new(ST)
        W.meth(S_, 'copy_from_engine', E)
        b = body(W, k)
        C = W.new(SR + 'constraints.contacts.Contacts')
        W.meth(C, 'initialize', dt, S_, E)
        v0 = [field(W, b, a) for a in 'vw']
        u0 = [W.ip.sel(W.get(S_, 'u'), (6 * k + i,), W.st) for i in range(6)]
        x0 = [W.ip.sel(W.get(S_, 'x'), (7 * k + i,), W.st) for i in range(7)]
        seen = []

        def solve(ip, st, args, kw):
            ps = args[1]
            seen.append(ps)
            p = ip.np.getitem(ps, ZERO, st)
            m = 4 * tm.app('len', 'contacts')
            ip.setattr(p, 'sol', ip.sarr(lambda idx: tm.app('psol', *idx), (m,), st), st)
        W.ip.models[SR + 'gauss_seidel_solver.solve'] = solve
        W.call(f, E, C, S_, W.dct(), profiling())
        for i in range(6):
            r.eq('post-stabilization keeps velocities [%d]' % i, W.ip.sel(W.get(S_, 'u'), (6 * k + i,), W.st), u0[i], f)
        m = 4 * tm.app('len', 'contacts')
        sol = W.ip.sarr(lambda idx: tm.app('psol', *idx), (m,), W.st)
        d = W.ip.np.matvec(W.get(C, 'WJT'), sol, W.st)
        fixed = W.ip.truth(W.get(b, 'is_fixed'), W.st)
        for i in range(3):
            got = W.ip.sel(W.get(S_, 'x'), (7 * k + i,), W.st)
            mv = W.ip.sel(d, (6 * k + i,), W.st)
            dd = got - x0[i]
            # when something penetrates, the displacement is W J^T times the solution
            r.eq('post-stabilization displaces by W J^T times its solution [%d]' % i, dd, mv, f, care=~fixed, hard=('matvec',), hooks=[pen_hook])
            r.eq('post-stabilization keeps fixed bodies [%d]' % i, dd, ZERO, f, care=fixed, hooks=[pen_hook])
        r.fact('one projection problem is solved', len(seen) == 1, f, '%d solves' % len(seen))


def pen_hook(s, a):
    """interpretations in which some contact penetrates"""
    if a.op in ('anyof', 'exists'):
        return True
    if a.op == 'allof':
        return False


def R16(r):
    """placing bodies and hinges in model, body or world frame puts them where asked"""
    hq = lambda *fs: [unit_fields(x) for x in fs]
    for nm in ('set_position', 'set_orientation'):
        W = rworld(r)
        f = W.fn(API + nm)
        with r.section(nm + ' model frame', f):
            E = W.engine()
            b = stored(W, 'bodies', S(W, 'n'))
            sh = W.get(b, 'shape')
            rb, qb, rm, qm = field(W, b, 'r'), field(W, b, 'q'), field(W, sh, 'r'), field(W, sh, 'q')
            hk = hq(qb, qm) + [unit_hook('qn')]

            def model(rr, qq):
                q = qmul(qq, qconj(qm))
                return rr - qr(q, rm), q
            r0, q0 = model(rb, qb)
            if nm == 'set_position':
                c = V('p', 3)
                arg = A(W, c)
                W.call(f, E, S(W, 'n'), arg, TRUE)
                r1, q1 = model(field(W, b, 'r'), field(W, b, 'q'))
                eqv(r, 'the model frame origin is placed at the given position', W, A(W, r1), c, f, hooks=hk)
                same_rotation(r, 'placing the model frame keeps the orientation', W, A(W, q1), q0, f, hooks=hk)
            else:
                c = V('qn', 4)
                arg = A(W, c)
                W.call(f, E, S(W, 'n'), arg, TRUE)
                r1, q1 = model(field(W, b, 'r'), field(W, b, 'q'))
                eqv(r, 'turning the model frame keeps its origin', W, A(W, r1), r0, f, hooks=hk)
                same_rotation(r, 'the model frame gets the given orientation', W, A(W, q1), c, f, hooks=hk)
                r.eq('the stored orientation has unit length', dot(field(W, b, 'q'), field(W, b, 'q')), ONE, f, hooks=hk)
            eqv(r, nm + ' leaves its argument alone', W, arg, c, f)
            eqv(r, nm + ' keeps the shape frame position', W, W.get(sh, 'r'), rm, f)
            eqv(r, nm + ' keeps the shape frame orientation', W, W.get(sh, 'q'), qm, f)
            r.fact(nm + ' does not share storage with the shape', storage(W.get(b, 'r')) not in (storage(W.get(sh, 'r')), arg.oid) and storage(W.get(b, 'q')) not in (storage(W.get(sh, 'q')), arg.oid), f, 'shared storage')
    for mode in ('world', 'body', 'model'):
        W = rworld(r)
        f = W.fn(API + 'set_hinge')
        with r.section('set_hinge ' + mode, f):
            E = W.engine()
            pa, ch, hg = stored(W, 'bodies', S(W, 'n')), stored(W, 'bodies', S(W, 'm')), stored(W, 'hinges', S(W, 'h'))
            sh = W.get(pa, 'shape')
            rp, qp, rc, qc = field(W, pa, 'r'), field(W, pa, 'q'), field(W, ch, 'r'), field(W, ch, 'q')
            rm, qm = field(W, sh, 'r'), field(W, sh, 'q')
            o, a = V('o', 3), V('a', 3)
            ao, aa = A(W, o), A(W, a)
            W.call(f, E, S(W, 'h'), S(W, 'n'), S(W, 'm'), ao, aa, mode)
            if mode == 'world':
                ow, sw = o, a
            elif mode == 'body':
                ow, sw = qr(qp, o) + rp, qr(qp, a)
            else:
                ow, sw = qr(qp, qr(qconj(qm), o - rm)) + rp, qr(qp, qr(qconj(qm), a))
            hk = hq(qp, qc, qm) + [ons_hook]
            kw = dict(hooks=hk, samples=10)
            r.fact('%s hinge: parent is the named body' % mode, W.ip.same(W.get(hg, 'parent'), pa), f, 'another body')
            r.fact('%s hinge: child is the named body' % mode, W.ip.same(W.get(hg, 'child'), ch), f, 'another body')
            eqv(r, '%s hinge: joint point on the parent' % mode, W, A(W, qr(qp, field(W, hg, 'arm_p')) + rp), ow, f, **kw)
            eqv(r, '%s hinge: joint point on the child' % mode, W, A(W, qr(qc, field(W, hg, 'arm_c')) + rc), ow, f, **kw)
            n = sw / norm(sw)
            eqv(r, '%s hinge: joint axis on the parent' % mode, W, A(W, qr(qp, field(W, hg, 'axis_p'))), n, f, **kw)
            eqv(r, '%s hinge: joint axis on the child' % mode, W, A(W, qr(qc, field(W, hg, 'axis_c'))), n, f, **kw)
            sp, sc = W.get(hg, 'socket_p'), W.get(hg, 'socket_c')
            eqv(r, '%s hinge: socket and arm agree on the parent' % mode, W, W.get(sp, 'r'), field(W, hg, 'arm_p'), f, **kw)
            eqv(r, '%s hinge: socket and arm agree on the child' % mode, W, W.get(sc, 'r'), field(W, hg, 'arm_c'), f, **kw)
            same_rotation(r, '%s hinge: the sockets coincide in the world' % mode, W, A(W, qmul(qp, field(W, sp, 'q'))), qmul(qc, field(W, sc, 'q')), f, **kw)
            eqv(r, '%s hinge: origin argument is left alone' % mode, W, ao, o, f)
            eqv(r, '%s hinge: axis argument is left alone' % mode, W, aa, a, f)
            for x, y, z in ((pa, rp, qp), (ch, rc, qc)):
                eqv(r, '%s hinge: bodies do not move' % mode, W, W.get(x, 'r'), y, f)
                eqv(r, '%s hinge: bodies do not turn' % mode, W, W.get(x, 'q'), z, f)
