"""Rigid body simulator: how a step puts external forces, constraints and stabilization together."""
from .lib import *
from .rules_rigid import rworld, body, ST, STEP, unit_fields, choice_cells
from .rules_rigid2 import field

CON = SR + 'constraints.'
CLS = {'c': CON + 'contacts.Contacts', 'h': CON + 'hinges.Hinges', 'p': CON + 'post_stabilization.PostStabilization'}
SOLVE = SR + 'gauss_seidel_solver.solve'


def counts_hook(s, a):
    """interpretations with no, one or more contacts and hinges"""
    if a.op == 'len' and a.args and a.args[0] in ('contacts', 'hinges'):
        return float(tm._h(s.seed, 'count', a.args[0]).choice([0, 1, 3]))


def step_sums(r):
    """a step adds what the forces and every kind of constraint contribute; contacts that exist are post-stabilized when asked for"""
    dt, k = tm.sym('dt'), tm.sym('ιb')
    W = rworld(r, opaque=[SR + 'collision_detection.run_collision_detection'])
    f = W.fn(STEP + '.step')
    with r.section('sums of a step', f):
        E = W.engine()
        b = body(W, k)
        n = tm.app('len', 'bodies')
        has = {'c': ~tm.eq0(tm.app('len', 'contacts')), 'h': ~tm.eq0(tm.app('len', 'hinges'))}
        R, Q4, v, w = [field(W, b, a) for a in 'rqvw']
        fixed = W.ip.truth(W.get(b, 'is_fixed'), W.st)
        S0 = W.new(ST)
        W.meth(S0, 'copy_from_engine', E)
        ext = [W.ip.sel(W.get(S0, 'delta_u_ext'), (6 * k + i,), W.st) for i in range(6)]
        post = W.ip.truth(W.get(W.get(E, 'params'), 'use_post_stabilization'), W.st)
        log = {'init': [], 'fin': [], 'solve': []}

        def which(ip, o):
            return next(c for c, q in CLS.items() if o.cls is ip.find_class(q))
        gaps = tm.pred('bsym', 'something penetrates')

        def init(ip, st, a, kw):
            c = which(ip, a[0])
            log['init'].append((c, kw.get('dt', a[1] if len(a) > 1 else None), st.pc))
            for x in ('diag', 'sol', 'x', 'b', 'r', 'error', 'mu', 'e'):
                ip.setattr(a[0], x, ip.arr(V(c + x, 4), st), st)
            for x in ('J', 'WJT'):
                ip.setattr(a[0], x, Opq(('matvec', c, x), 'arr'), st)
            ip.setattr(a[0], 'g', ip.arr(arr([tm.ite(gaps, -ONE, ZERO), ZERO, ZERO, ZERO]), st), st)

        def fin(ip, st, a, kw):
            c = which(ip, a[0])
            log['fin'].append((c, st.pc))
            return ip.sarr(lambda idx: tm.app('du' + c, *idx), (6 * n,), st)
        for q in CLS.values():
            W.ip.models[q + '.initialize'] = init
            W.ip.models[q + '.finalize_solution'] = fin

        def solve(ip, st, a, kw):
            ps = a[1] if len(a) > 1 else kw['problems']
            got = {}
            for seg in ip.np.iterate(ps, st):
                if seg[0] != 'c':
                    raise Unsupported('problems of unknown content')
                c = which(ip, seg[2])
                got[c] = got.get(c, FALSE) | (seg[1] & st.pc)
            log['solve'].append(got)
        W.ip.models[SOLVE] = solve
        o = W.new(STEP)
        W.meth(o, 'step', dt, E, profiling())
        hk = [counts_hook, unit_fields(Q4)]
        du = {c: [tm.app('du' + c, 6 * k + i) for i in range(6)] for c in CLS}
        dv = [ext[i] * dt + sum((tm.ite(has[c], du[c][i], ZERO) for c in 'ch'), ZERO) for i in range(6)]
        v1, w1 = arr([v[i] + dv[i] for i in range(3)]), arr([w[i] + dv[3 + i] for i in range(3)])
        kw = dict(care=~fixed, hooks=hk, samples=40)
        for i in range(3):
            r.eq('linear velocity after a step: external change and every constraint [%d]' % i, tm.spec(field(W, b, 'v')[i], ~fixed), v1[i], f, **kw)
            r.eq('angular velocity after a step: external change and every constraint [%d]' % i, tm.spec(field(W, b, 'w')[i], ~fixed), w1[i], f, **kw)

        def move(x, q, a, c, h):
            q = q + qmul(arr([ZERO] + list(c)), q) * (h / 2)
            return x + a * h, arr(q / norm(q))
        x1, q1 = move(R, Q4, v1, w1, dt)
        x2, q2 = move(x1, q1, arr(du['p'][:3]), arr(du['p'][3:]), ONE)
        on = has['c'] & post & gaps
        for tag, care, x, q in (('stabilized', on, x2, q2), ('not stabilized', ~on, x1, q1)):
            for i in range(3):
                r.eq('position after a step, %s [%d]' % (tag, i), tm.spec(field(W, b, 'r')[i], ~fixed & care), x[i], f, care=~fixed & care, hooks=hk, samples=14)
            for i in range(4):
                r.eq('orientation after a step, %s [%d]' % (tag, i), tm.spec(field(W, b, 'q')[i], ~fixed & care), q[i], f, care=~fixed & care, hooks=hk, samples=14)
        first = log['solve'][0] if log['solve'] else {}
        for c, nm in (('c', 'contacts'), ('h', 'hinges')):
            r.eq('the %s are solved for together' % nm, first.get(c, FALSE), has[c], f, hooks=[counts_hook])
        for c in 'chp':
            for d, t, pc in log['init']:
                if d == c and isinstance(t, T):
                    r.eq('time step given to the %s' % {'c': 'contacts', 'h': 'hinges', 'p': 'stabilization'}[c], t, ONE if c == 'p' else dt, f, care=pc, hooks=[counts_hook])


# ------------------------------------------------------------------ reported energies
def two_bodies(W):
    """an engine with two free bodies and a fixed one in between, under its gravity forces"""
    E = W.new(RT + '.Engine')
    out = []
    for k, c in enumerate('abc'):
        o = W.new(RT + '.RigidBody', c)
        for at, v in (('idx', lift(k)), ('q', A(W, V('q' + c, 4))), ('r', A(W, V('r' + c, 3))), ('v', A(W, V('v' + c, 3))), ('w', A(W, V('w' + c, 3))),
                      ('mass', tm.sym('m' + c)), ('inertia', A(W, V('I' + c, 3))), ('is_fixed', TRUE if c == 'b' else FALSE)):
            W.ip.setattr(o, at, v, W.st)
        W.ip.np.setitem(W.get(E, 'bodies'), c, o, W.st)
        out.append(o)
    return E, out


def gravities(W, E, n):
    out = []
    for i in range(n):
        g = W.new(RT + '.Gravity', 'gravity%d' % i)
        W.ip.setattr(g, 'g', tm.sym('g%d' % i), W.st)
        W.ip.setattr(g, 'up', A(W, V('u%d' % i, 3)), W.st)
        W.ip.np.setitem(W.get(E, 'forces'), 'gravity%d' % i, g, W.st)
        out.append(g)
    d = W.new(RT + '.Damping', 'drag')
    W.ip.np.setitem(W.get(E, 'forces'), 'drag', d, W.st)
    return out


def kinetic(W, bs):
    s = ZERO
    for b in bs:
        q, v, w, I, m = [field(W, b, a) if a != 'mass' else W.get(b, a) for a in ('q', 'v', 'w', 'inertia', 'mass')]
        l = matvec(qmat(q).T, w)
        s = s + (m * dot(v, v) + dot(l, arr([x * y for x, y in zip(l, I)]))) / 2
    return s


UN = [unit_hook('qa', 'qb', 'qc', 'u0', 'u1'), pos_hook('ma', 'mb', 'mc', *['I%s[%d]' % (c, i) for c in 'abc' for i in range(3)]),
      pos_hook('g0', 'g1', 'dt')]


def R26(r):
    """reported energies and penetrations are those of the reported state"""
    for n in (0, 1, 2):
        W = rworld(r)
        f = W.fn(ST + '.compute_total_energy')
        with r.section('energies, %d gravity forces' % n, f):
            E, bs = two_bodies(W)
            gs = gravities(W, E, n)
            S = W.new(ST)
            W.meth(S, 'copy_from_engine', E)
            out = W.meth(S, 'compute_total_energy', E)
            ke, pe = W.ip.np.getitem(out, ZERO, W.st), W.ip.np.getitem(out, ONE, W.st)
            free = [bs[0], bs[2]]
            r.eq('kinetic energy, %d gravity forces' % n, ke, kinetic(W, free), f, hooks=UN)
            G = sum((V('u%d' % i, 3) * tm.sym('g%d' % i) for i in range(n)), arr([0, 0, 0]))
            r.eq('potential energy, %d gravity forces' % n, pe, sum((W.get(b, 'mass') * dot(G, field(W, b, 'r')) for b in free), ZERO), f, hooks=UN)
            if n == 1:
                # the force is what the energy falls by
                F = W.meth(gs[0], 'compute', bs[0], *[A(W, V(x + 'a', k)) for x, k in (('r', 3), ('q', 4), ('v', 3), ('w', 3))])
                F = cells(W, W.ip.np.getitem(F, ZERO, W.st))
                for i in range(3):
                    r.eq('gravity is the negative slope of the potential energy [%d]' % i, D(lift(pe), tm.sym('ra[%d]' % i)), -F[i], f, hooks=UN)
            for o, c in zip(bs, 'abc'):
                for a, k in (('r', 3), ('q', 4), ('v', 3), ('w', 3)):
                    eqv(r, 'measuring energies keeps %s of body %s' % (a, c), W, W.get(o, a), V(a + c, k), f)
            if n < 2:
                # of the state, as far as it was advanced
                du = V('du', 18)
                W.meth(S, 'velocity_update', A(W, du))
                ke2 = W.ip.np.getitem(W.meth(S, 'compute_total_energy', E), ZERO, W.st)
                sub = {}
                for k, c in enumerate('abc'):
                    for a, o in (('v', 0), ('w', 3)):
                        for i in range(3):
                            sub[tm.sym('%s%s[%d]' % (a, c, i)).as_atom()] = tm.sym('%s%s[%d]' % (a, c, i)) + du[6 * k + o + i]
                r.eq('kinetic energy after a velocity change, %d gravity forces' % n, ke2, tm.subst(kinetic(W, free), sub), f, hooks=UN)
                if n == 1:
                    W.meth(S, 'position_update', tm.sym('dt'), E)
                    x = W.get(S, 'x')
                    now = [arr([W.ip.sel(x, (lift(7 * k + i),), W.st) if isinstance(x, SArr) else cells(W, x)[7 * k + i] for i in range(3)]) for k in (0, 2)]
                    pe2 = W.ip.np.getitem(W.meth(S, 'compute_total_energy', E), ONE, W.st)
                    r.eq('potential energy after moving', pe2, sum((W.get(b, 'mass') * dot(G, y) for b, y in zip(free, now)), ZERO), f, hooks=UN)
    W = rworld(r)
    f = W.fn(CLS['c'] + '.get_largest_penetration')
    with r.section('largest penetration', f):
        E, bs = two_bodies(W)
        g = [tm.sym('gap%d' % i) for i in range(3)]
        for n in range(4):
            cps = [W.new(RT + '.ContactPoint', bs[0], bs[2], A(W, V('p', 3)), A(W, arr([0, 0, 1])), x) for x in g[:n]]
            W.ip.setattr(E, 'contact_points', W.ip.lst(cps, W.st), W.st)
            want = ZERO
            for x in g[:n]:
                want = tm.fmax(want, -x)
            r.eq('largest penetration of %d contacts' % n, W.call(f, E), want, f, samples=30)
    # what a profiled step records
    with tm.compact():
        records(r)


def records(r):
    W = rworld(r, opaque=[SR + 'collision_detection.run_collision_detection'])
    f = W.fn(STEP + '.step')
    with r.section('record of a step', f):
        E, bs = two_bodies(W)
        gravities(W, E, 1)
        dt = tm.sym('dt')
        o = W.new(STEP)
        for n in range(2):
            W.meth(o, 'step', dt, E, TRUE)
            log = items(W, W.get(o, 'log'))
            if not r.fact('one record per profiled step (%d)' % (n + 1), len(log) == n + 1, f, '%d records' % len(log)):
                break
            rec = lambda k: W.ip.np.getitem(log[n], k, W.st)
            free = [bs[0], bs[2]]
            G = V('u0', 3) * tm.sym('g0')
            r.eq('recorded kinetic energy is that of the bodies after step %d' % (n + 1), rec('kinetic_energy'), kinetic(W, free), f, hooks=UN)
            r.eq('recorded potential energy is that of the bodies after step %d' % (n + 1), rec('potential_energy'), sum((W.get(b, 'mass') * dot(G, field(W, b, 'r')) for b in free), ZERO), f, hooks=UN)
            r.eq('recorded time step %d' % (n + 1), rec('dt'), dt, f)
            r.eq('recorded number of contacts %d' % (n + 1), rec('contact_points'), ZERO, f)
            r.eq('recorded penetration %d' % (n + 1), rec('max_penetration'), ZERO, f)
        W.meth(o, 'step', dt, E, FALSE)
        r.fact('steps without profiling leave no record', len(items(W, W.get(o, 'log'))) == 2, f, 'a record was added')
