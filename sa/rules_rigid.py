"""Rigid body simulator: stepping, constraints, solver."""
from .lib import *

ST = SR + 'state_storage.StateStorage'
CO = SR + 'constraints.contacts.Contacts'
HI = SR + 'constraints.hinges.Hinges'
PS = SR + 'constraints.post_stabilization.PostStabilization'
STEP = SR + 'steppers.SemiImplicitStepper'
ONV = 'rainbow.math.vector3.make_orthonormal_vectors'


def frame_summary(ip, st, args, kw):
    """summary of make_orthonormal_vectors (its contract is property M06): two tangents that are functions of n, and n/|n|"""
    n = ip.cells(args[0], st)
    k = tuple(n)
    nn = norm(n)
    return (ip.arr([tm.app('ons', 0, j, *k) for j in range(3)], st), ip.arr([tm.app('ons', 1, j, *k) for j in range(3)], st),
            ip.arr([x / nn for x in n], st))


def rworld(r, opaque=(), **kw):
    W = world(r, **kw)
    W.ip.models[ONV] = frame_summary
    W.ip.opaque |= set(opaque)
    return W


def body(W, k):
    return W.ip.sym_obj(RT + '.RigidBody', ('coll', 'bodies', k), W.st)


def setb(b):
    """substitution that makes predicate b true"""
    return {b.v: TRUE} if b.hi is TRUE else {b.v: FALSE}


def R01(r):
    """a fixed body's pose and velocity after a step are the values before"""
    W = rworld(r, opaque=[SR + 'collision_detection.run_collision_detection'])
    f = W.fn(STEP + '.step')
    E = W.engine()
    k = tm.sym('ιb')
    b = body(W, k)
    before = {a: cells(W, W.get(b, a)) for a in 'rqvw'}
    fixed = W.ip.truth(W.get(b, 'is_fixed'), W.st)
    with r.section('step', f):
        S = W.new(STEP)
        W.meth(S, 'step', tm.sym('dt'), E, tm.pred('bsym', 'profiling'))
        for a in 'rqvw':
            try:
                now = cells(W, W.get(b, a))
            except Unsupported as e:
                r.undecided('fixed body keeps ' + a, f, e)
                continue
            now = [tm.spec(x, fixed) for x in now]
            for j, (x, y) in enumerate(zip(now, before[a])):
                r.eq('fixed body keeps %s[%d] over a step' % (a, j), x, y, f, care=fixed, hard=('matvec',))
    r.count('generic body', 1)


# ------------------------------------------------------------------ stepping
def unconstrained(W, k):
    return tm.eq0(tm.app('len', 'contacts')) & tm.eq0(tm.app('len', 'hinges')) & ~W.ip.truth(W.get(body(W, k), 'is_fixed'), W.st)


def R02(r):
    """with no contacts and no hinges a step is semi-implicit Euler under the attached forces and the gyroscopic torque"""
    W = rworld(r, opaque=[SR + 'collision_detection.run_collision_detection'])
    f = W.fn(STEP + '.step')
    E = W.engine()
    k = tm.sym('ιb')
    b = body(W, k)
    dt = tm.sym('dt')
    R, Q4, Vv, Ww = [cells(W, W.get(b, a)) for a in 'rqvw']
    m, I = W.get(b, 'mass'), cells(W, W.get(b, 'inertia'))
    care = unconstrained(W, k)
    # forces: sum over the attached forces of their compute() values
    Fs, Ts = arr([0, 0, 0]), arr([0, 0, 0])
    with r.section('forces', f):
        lst = W.get(b, 'forces')
        j = tm.atom('sym', 'ιf')
        fo = W.ip.np.getitem(lst, lift(j), W.st)
        n = W.ip.np.length(lst, W.st) if hasattr(W.ip.np, 'length') else W.ip.call(W.ip.global_name(W.prog.modules[RT], 'len', W.st), [lst], {}, W.st)
        out = W.call(W.ip.getattr(fo, 'compute', W.st), b, A(W, R), A(W, Q4), A(W, Vv), A(W, Ww))
        F1, T1 = W.ip.np.getitem(out, ZERO, W.st), W.ip.np.getitem(out, ONE, W.st)
        F1, T1 = choice_cells(W, F1), choice_cells(W, T1)
        Fs = arr([tm.mksum(j, lift(n), x) for x in F1])
        Ts = arr([tm.mksum(j, lift(n), x) for x in T1])
    hk = [unit_fields(Q4), nocon_hook, pos_fields(m, *I)]
    Rm = qmat(Q4)

    def Iw(v, inv):
        l = matvec(Rm.T, v)
        return matvec(Rm, arr([x / i if inv else x * i for x, i in zip(l, I)]))
    v2 = Vv + Fs * (dt / m)
    w2 = Ww + Iw(Ts - cross(Ww, Iw(Ww, False)), True) * dt
    r2 = R + v2 * dt
    q2 = Q4 + qmul(arr([ZERO] + list(w2)), Q4) * (dt / 2)
    q2 = q2 / norm(q2)
    with r.section('step', f):
        S = W.new(STEP)
        W.meth(S, 'step', dt, E, tm.pred('bsym', 'profiling'))
        kw = dict(care=care, hooks=hk)
        now = {a: [tm.spec(x, care) for x in cells(W, W.get(b, a))] for a in 'rqvw'}
        for j2 in range(3):
            r.eq('linear velocity after an unconstrained step [%d]' % j2, now['v'][j2], v2[j2], f, **kw)
            r.eq('angular velocity after an unconstrained step [%d]' % j2, now['w'][j2], w2[j2], f, **kw)
            r.eq('position uses the new velocity [%d]' % j2, now['r'][j2], r2[j2], f, **kw)
        for j2 in range(4):
            r.eq('orientation integrates the new spin [%d]' % j2, now['q'][j2], q2[j2], f, **kw)
    # force laws
    x, q, v, w = [A(W, V(nm, n)) for nm, n in (('x', 3), ('q', 4), ('v', 3), ('w', 3))]
    f = W.fn(RT + '.Gravity.compute')
    with r.section('gravity', f):
        o = W.root(RT + '.Gravity', 'gravity')
        t = W.meth(o, 'compute', b, x, q, v, w)
        up, g = cells(W, W.get(o, 'up')), W.get(o, 'g')
        eqv(r, 'gravity force is m g downwards', W, t[0], up * (-m * g), f)
        eqv(r, 'gravity exerts no torque', W, t[1], arr([0, 0, 0]), f)
    f = W.fn(RT + '.Damping.compute')
    with r.section('damping', f):
        o = W.root(RT + '.Damping', 'damping')
        t = W.meth(o, 'compute', b, x, q, v, w)
        eqv(r, 'damping force', W, t[0], -cells(W, v) * W.get(o, 'alpha'), f)
        eqv(r, 'damping torque', W, t[1], -cells(W, w) * W.get(o, 'beta'), f)


def nocon_hook(s, a):
    if a.op == 'len' and a.args and a.args[0] in ('contacts', 'hinges'):
        return 0.0


def choice_cells(W, v):
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            c = cells(W, x)
            out = c if out is None else np.array([tm.ite(g, a, b2) for a, b2 in zip(c, out)], dtype=object)
        return out
    return cells(W, v)


def unit_fields(q):
    """interpretations giving the four value numbers q (uninterpreted fields) unit length"""
    at = [x.as_atom() for x in q]

    def hk(s, a):
        if a in at:
            v = []
            for x in at:
                import random
                v.append(random.Random(repr((s.seed, 'uf', repr(x)))).uniform(-1, 1) or 0.5)
            l = sum(y * y for y in v) ** .5
            return v[at.index(a)] / l
    return hk


def pos_fields(*ts):
    at = {x.as_atom() for x in ts}

    def hk(s, a):
        if a in at:
            return abs(s.basic(a)) + 0.1
    return hk


# ------------------------------------------------------------------ constraints
def contact(W, k):
    return W.ip.sym_obj(RT + '.ContactPoint', ('coll', 'contacts', k), W.st)


def hinge(W, k):
    return W.ip.sym_obj(RT + '.Hinge', ('coll', 'hinges', k), W.st)


def tangents(n):
    k = tuple(n)
    return arr([tm.app('ons', 0, j, *k) for j in range(3)]), arr([tm.app('ons', 1, j, *k) for j in range(3)]), n / norm(n)


def ons_hook(s, a):
    """interpretations in which the uninterpreted tangents really are an orthonormal frame with their normal"""
    if a.op == 'ons':
        n = [s.T(x) for x in a.args[2:5]]
        l = sum(x * x for x in n) ** .5
        if l < 1e-6:
            return None
        n = [x / l for x in n]
        i = min(range(3), key=lambda j: abs(n[j]))
        e = [0.0, 0.0, 0.0]
        e[i] = 1.0
        b = [n[1] * e[2] - n[2] * e[1], n[2] * e[0] - n[0] * e[2], n[0] * e[1] - n[1] * e[0]]
        l = sum(x * x for x in b) ** .5
        b = [x / l for x in b]
        t = [b[1] * n[2] - b[2] * n[1], b[2] * n[0] - b[0] * n[2], b[0] * n[1] - b[1] * n[0]]
        return (t if a.args[0] == 0 else b)[a.args[1]]


def setup(r, cls, dt):
    W = rworld(r)
    E = W.engine()
    S = W.new(ST)
    W.meth(S, 'copy_from_engine', E)
    C = W.new(cls)
    W.meth(C, 'initialize', dt, S, E)
    return W, E, S, C


def bodyvals(W, o):
    return tuple(cells(W, W.get(o, a)) for a in 'rqvw')


def R04(r):
    """the constraint velocity of a contact (hinge) row is the relative velocity of the two bodies at the contact (joint)"""
    dt = tm.sym('dt')
    k = tm.sym('ιc')
    with r.section('contact rows', CO):
        W, E, S, C = setup(r, CO, dt)
        f = W.fn(CO + '.initialize')
        cp = contact(W, k)
        a, b = W.get(cp, 'bodyA'), W.get(cp, 'bodyB')
        p, n = cells(W, W.get(cp, 'p')), cells(W, W.get(cp, 'n'))
        ra, qa, va, wa = bodyvals(W, a)
        rb, qb, vb, wb = bodyvals(W, b)
        rel = (vb + cross(wb, p - rb)) - (va + cross(wa, p - ra))
        t1, t2, nn = tangents(n)
        v = W.ip.np.matvec(W.get(C, 'J'), W.get(S, 'u'), W.st)
        rows = [W.ip.sel(v, (4 * k + i,), W.st) for i in range(4)]
        r.eq('contact row 0 is the normal relative velocity at the contact point', rows[0], dot(nn, rel), f)
        # the two tangential rows span the tangent plane
        for i in (1, 2):
            c = dot((t1, t2)[i - 1], rel)
            r.eq('contact row %d is a tangential relative velocity at the contact point' % i, rows[i], c, f, hooks=[ons_hook])
        r.eq('contact row 3 is the relative spin about the normal', rows[3], dot(nn, wb - wa), f)
        e = W.get(C, 'K')
        r.eq('one block of rows per contact', e, tm.app('len', 'contacts'), f)
        sh = W.get(C, 'J').shape
        r.eq('contact Jacobian row count', sh[0], 4 * tm.app('len', 'contacts'), f)
        r.eq('contact Jacobian column count', sh[1], 6 * tm.app('len', 'bodies'), f)
    with r.section('hinge rows', HI):
        W, E, S, C = setup(r, HI, dt)
        f = W.fn(HI + '.initialize')
        h = hinge(W, k)
        a, b = W.get(h, 'parent'), W.get(h, 'child')
        ra, qa, va, wa = bodyvals(W, a)
        rb, qb, vb, wb = bodyvals(W, b)
        ap, ac, ax = [cells(W, W.get(h, x)) for x in ('arm_p', 'arm_c', 'axis_p')]
        hk = [unit_fields(qa), unit_fields(qb), ons_hook]
        pa, pb = qmul(qmul(qa, arr([0] + list(ap))), qconj(qa))[1:], qmul(qmul(qb, arr([0] + list(ac))), qconj(qb))[1:]
        axw = qmul(qmul(qa, arr([0] + list(ax))), qconj(qa))[1:]
        rel = (va + cross(wa, pa)) - (vb + cross(wb, pb))
        t1, t2, nn = tangents(axw)
        v = W.ip.np.matvec(W.get(C, 'J'), W.get(S, 'u'), W.st)
        rows = [W.ip.sel(v, (5 * k + i,), W.st) for i in range(5)]
        s = sign_of(r, rows[0], rel[0], hk)
        for i in range(3):
            r.eq('hinge row %d is the relative velocity of the joint points' % i, rows[i], rel[i] * s, f, hooks=hk)
        s = sign_of(r, rows[3], dot(t1, wa - wb), hk)
        r.eq('hinge row 3 is a relative spin across the hinge axis', rows[3], dot(t1, wa - wb) * s, f, hooks=hk)
        s = sign_of(r, rows[4], dot(t2, wa - wb), hk)
        r.eq('hinge row 4 is a relative spin across the hinge axis', rows[4], dot(t2, wa - wb) * s, f, hooks=hk)
        sh = W.get(C, 'J').shape
        r.eq('hinge Jacobian row count', sh[0], 5 * tm.app('len', 'hinges'), f)
        r.eq('hinge Jacobian column count', sh[1], 6 * tm.app('len', 'bodies'), f)


def sign_of(r, x, y, hk):
    """which of x=y, x=-y (an equality constraint may be stated either way)"""
    return 1 if tm.equal(x, y, hooks=hk, samples=6).equal is not False else -1


def R03(r):
    """constraint impulses act equally and oppositely on the two bodies, at the same point, and only through the inverse masses"""
    dt = tm.sym('dt')
    k = tm.sym('ιc')
    for nm, cls, nr, coll in (('contact', CO, 4, contact), ('hinge', HI, 5, hinge)):
        with r.section(nm, cls):
            W, E, S, C = setup(r, cls, dt)
            f = W.fn(cls + '.initialize')
            o = coll(W, k)
            a, b = (W.get(o, 'bodyA'), W.get(o, 'bodyB')) if nm == 'contact' else (W.get(o, 'parent'), W.get(o, 'child'))
            ia, ib = W.get(a, 'idx'), W.get(b, 'idx')
            J = W.get(C, 'J')
            hk = [ons_hook]
            for i in range(nr):
                row = W.ip.np.mat_row(J, nr * k + i, W.st)
                if row is None:
                    r.undecided('%s row %d' % (nm, i), f, 'row not resolved')
                    continue
                blk = {}
                stray = []
                for c, v in row:
                    for o2, ix in (('a', ia), ('b', ib)):
                        d = (c - 6 * ix).const()
                        if d is not None and 0 <= d < 6:
                            blk[o2, int(d)] = blk.get((o2, int(d)), ZERO) + v
                            break
                    else:
                        if v is not ZERO:
                            stray.append(c)
                r.count('Jacobian entries', len(row))
                r.fact('%s row %d touches only the two bodies it joins' % (nm, i), not stray, f, 'entries in columns %s' % [tm.show(x) for x in stray[:3]])
                g = lambda o2, j: blk.get((o2, j), ZERO)
                for j in range(3):
                    r.eq('%s row %d: linear impulses cancel [%d]' % (nm, i, j), g('a', j) + g('b', j), ZERO, f, hooks=hk)
                la, lb = arr([g('a', j) for j in range(3)]), arr([g('b', j) for j in range(3)])
                wa, wb = arr([g('a', 3 + j) for j in range(3)]), arr([g('b', 3 + j) for j in range(3)])
                if nm == 'contact':
                    xa, xb = cells(W, W.get(a, 'r')), cells(W, W.get(b, 'r'))
                    mom = cross(xa, la) + wa + cross(xb, lb) + wb
                    for j in range(3):
                        r.eq('%s row %d: angular momentum is conserved [%d]' % (nm, i, j), mom[j], ZERO, f, hooks=hk)
                else:
                    qa, qb = cells(W, W.get(a, 'q')), cells(W, W.get(b, 'q'))
                    pa = qmul(qmul(qa, arr([0] + list(cells(W, W.get(o, 'arm_p'))))), qconj(qa))[1:]
                    pb = qmul(qmul(qb, arr([0] + list(cells(W, W.get(o, 'arm_c'))))), qconj(qb))[1:]
                    # conserved once the joint points coincide: torque = arm x force, plus opposite couples
                    mom = wa - cross(pa, la) + wb - cross(pb, lb)
                    for j in range(3):
                        r.eq('%s row %d: torques are arm x force plus opposite couples [%d]' % (nm, i, j), mom[j], ZERO, f, hooks=hk)
            # impulses reach the bodies as W J^T x with this J
            f = W.fn(cls + '.finalize_solution')
            WM = W.get(S, 'W')
            JT = W.ip.getattr(J, 'T', W.st)
            want = W.ip.np.matvec(WM, W.ip.np.matvec(JT, W.get(C, 'sol'), W.st), W.st)
            got = W.meth(C, 'finalize_solution')
            kb = tm.sym('ιb')
            for j in range(6):
                r.eq('%s velocity change is W J^T x [%d]' % (nm, j), W.ip.sel(got, (6 * kb + j,), W.st), W.ip.sel(want, (6 * kb + j,), W.st), f)
            want2 = W.ip.np.matvec(WM, W.ip.np.matvec(JT, W.get(C, 'x'), W.st), W.st)
            # inverse mass matrix blocks
            bb = body(W, kb)
            x = V('u', 6)
            fx = ~W.ip.truth(W.get(bb, 'is_fixed'), W.st)
            qb = cells(W, W.get(bb, 'q'))
            y = W.ip.np.matvec(WM, W.get(S, 'u'), W.st)
            vb, wb = cells(W, W.get(bb, 'v')), cells(W, W.get(bb, 'w'))
            m, I = W.get(bb, 'mass'), cells(W, W.get(bb, 'inertia'))
            Rm = qmat(qb)
            l = matvec(Rm.T, wb)
            aw = matvec(Rm, arr([p / q for p, q in zip(l, I)]))
            fm = W.fn(ST + '.copy_from_engine')
            for j in range(3):
                r.eq('inverse mass acts on linear momentum [%d]' % j, W.ip.sel(y, (6 * kb + j,), W.st), vb[j] / m, fm, care=fx, hooks=[unit_fields(qb)])
                r.eq('inverse inertia acts on angular momentum [%d]' % j, W.ip.sel(y, (6 * kb + 3 + j,), W.st), aw[j], fm, care=fx, hooks=[unit_fields(qb)])


def rows_of(v):
    """values that are rows of the product v is a row of (another row is another value)"""
    own = {a.args[:2] for a in tm.deep_atoms(v) if a.op == 'matvec'}
    return lambda a: a.op == 'matvec' and a.args[:2] in own


def R05(r):
    """right-hand sides: bounce and drift correction have the documented sign and clamp"""
    dt = tm.sym('dt')
    k = tm.sym('ιc')
    E0 = None
    with r.section('contact rhs', CO):
        W, E, S, C = setup(r, CO, dt)
        f = W.fn(CO + '.initialize')
        st = W.st
        P = W.get(E, 'params')
        cp = contact(W, k)
        b, g, e = W.get(C, 'b'), W.get(C, 'g'), W.get(C, 'e')
        J = W.get(C, 'J')
        v = W.ip.np.matvec(J, W.get(S, 'u'), st)
        ext = W.ip.np.matvec(J, W.get(S, 'delta_u_ext'), st)
        hk = [ons_hook, pos_hook('dt')] + [_params_hook]
        bounce, pre = W.ip.truth(W.get(P, 'use_bounce'), st), W.ip.truth(W.get(P, 'use_pre_stabilization'), st)
        gap = W.get(cp, 'g')
        inter = W.meth(W.get(E, 'surfaces_interactions'), 'get_interaction', W.get(W.get(cp, 'bodyA'), 'material'), W.get(W.get(cp, 'bodyB'), 'material'))
        eps = choice_attr(W, inter, 'epsilon')
        mu0 = choice_item(W, inter, 'mu', 0)
        sel = lambda x, i: W.ip.sel(x, (4 * k + i,), st)
        lim = tm.fmax(-W.get(P, 'max_gap_value') / dt, W.get(P, 'gap_reduction') / dt * gap)
        act = pre & tm.lt(gap, -W.get(P, 'min_gap_value')) & tm.le(sel(v, 0), ZERO)
        for i in range(4):
            base = sel(v, i) + sel(ext, i) * dt
            if i == 0:
                base = base + tm.ite(bounce, eps * sel(v, 0), ZERO) + tm.ite(act, lim, ZERO)
            r.eq('contact right-hand side row %d: velocity, restitution, external change and bounded drift correction' % i, sel(b, i), base, f, hooks=hk)
            if i == 0:
                # penetrating contacts, approaching or not
                r.eq('contact right-hand side of a penetrating contact', sel(b, i), base, f, hooks=hk, samples=40, care=pre & tm.lt(gap, -W.get(P, 'min_gap_value')), hard=(rows_of(W.ip.sel(v, (tm.sym('ιrow'),), st)),))
        gg = sel(g, 0)
        r.le('drift correction never pulls bodies together', gg, ZERO, f, hooks=hk)
        r.le('drift correction is bounded by the maximum gap value', -W.get(P, 'max_gap_value') / dt, gg, f, hooks=hk)
        r.eq('friction coefficient of the contact is that of its material pair', W.ip.sel(W.get(C, 'mu'), (k,), st), mu0, f)
    with r.section('hinge rhs', HI):
        W, E, S, C = setup(r, HI, dt)
        f = W.fn(HI + '.initialize')
        st = W.st
        P = W.get(E, 'params')
        h = hinge(W, k)
        a, bd = W.get(h, 'parent'), W.get(h, 'child')
        ra, qa, va, wa = bodyvals(W, a)
        rb, qb, vb, wb = bodyvals(W, bd)
        J = W.get(C, 'J')
        rt = lambda q, v: qmul(qmul(q, arr([0] + list(v))), qconj(q))[1:]
        ap, ac, xp, xc = [cells(W, W.get(h, x)) for x in ('arm_p', 'arm_c', 'axis_p', 'axis_c')]
        pp, pc = rt(qa, ap) + ra, rt(qb, ac) + rb
        np_, nc = rt(qa, xp), rt(qb, xc)
        pre = W.ip.truth(W.get(P, 'use_pre_stabilization'), st)
        rate = W.get(P, 'gap_reduction') / dt
        b = W.get(C, 'b')
        v = W.ip.np.matvec(J, W.get(S, 'u'), st)
        ext = W.ip.np.matvec(J, W.get(S, 'delta_u_ext'), st)
        hk = [ons_hook, pos_hook('dt')]
        t1, t2, nn = tangents(np_)
        hku = hk + [unit_fields(x) for x in (qa, qb, xp, xc)]
        sel = lambda x, i: W.ip.sel(x, (5 * k + i,), st)
        # J u is the rate of change of the positional error (row 0..2: s*(p_parent-p_child)); the solver drives J u + b -> 0 so
        # the correction must be rate * (same error)
        s = sign_of(r, sel(v, 0), ((va + cross(wa, rt(qa, ap))) - (vb + cross(wb, rt(qb, ac))))[0], hku)
        for i in range(3):
            r.eq('hinge drift correction reduces the positional error [%d]' % i, sel(b, i), sel(v, i) + sel(ext, i) * dt + tm.ite(pre, rate * s * (pp - pc)[i], ZERO), f, hooks=hku)
        # rows 3,4: J u = s * t.(w_p - w_c); for a small misalignment u = n_p x n_c = rotation taking n_p to n_c, so
        # d/dt (t.u) = t.(w_c - w_p)
        for i, t in ((3, t1), (4, t2)):
            s = sign_of(r, sel(v, i), dot(t, wa - wb), hku)
            r.eq('hinge drift correction reduces the misalignment of the axes [%d]' % i, sel(b, i), sel(v, i) + sel(ext, i) * dt + tm.ite(pre, -rate * s * dot(t, cross(np_, nc)), ZERO), f, hooks=hku)
    with r.section('post stabilization', PS):
        W, E, S, C = setup(r, CO, dt)
        st = W.st
        P2 = W.new(PS, C)
        f = W.fn(PS + '.initialize')
        W.meth(P2, 'initialize', ONE, S, E)
        P = W.get(E, 'params')
        gap = W.get(contact(W, k), 'g')
        for i in range(4):
            r.eq('post-stabilization error row %d is the penetration' % i, W.ip.sel(W.get(P2, 'g'), (4 * k + i,), st), tm.ite(tm.lt(gap, -W.get(P, 'min_gap_value')), gap, ZERO) if i == 0 else ZERO, f, hooks=[_params_hook])
        r.fact('post-stabilization uses the contact Jacobian', W.ip.same(W.get(P2, 'J'), W.get(C, 'J')) and W.ip.same(W.get(P2, 'WJT'), W.get(C, 'WJT')), f, 'different matrices')


def _params_hook(s, a):
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('engine.params.'):
        return abs(s.basic(a)) + 0.01


def choice_attr(W, v, name):
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            y = W.get(x, name)
            out = y if out is None else tm.ite(g, y, out)
        return out
    return W.get(v, name)


def choice_item(W, v, name, i):
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            y = cells(W, W.get(x, name))[i]
            out = y if out is None else tm.ite(g, y, out)
        return out
    return cells(W, W.get(v, name))[i]


# ------------------------------------------------------------------ solver
def problem(W, cls, K, nb, D, mu=None):
    """a constraint problem with K constraints whose matrices are arbitrary (D velocity unknowns)"""
    if cls == PS:
        C0 = W.new(CO)
        for a, v in (('K', K), ('J', A(W, V('J', (nb * K, D)))), ('WJT', A(W, V('WJT', (D, nb * K)))), ('diag', A(W, V('diag', nb * K)))):
            W.ip.setattr(C0, a, v, W.st)
        P = W.new(PS, C0)
    else:
        P = W.new(cls)
    f = {'J': V('J', (nb * K, D)), 'WJT': V('WJT', (D, nb * K)), 'r': V('r', nb * K), 'x': V('x', nb * K), 'sol': V('sol', nb * K),
         'error': V('err', nb * K), 'b': V('b', nb * K), 'g': V('b', nb * K), 'mu': V('mu', K)}
    for a, v in f.items():
        if cls == PS and a in ('b', 'mu'):
            continue
        if cls != PS and a == 'g':
            continue
        W.ip.setattr(P, a, A(W, v), W.st)
    W.ip.setattr(P, 'K', K, W.st)
    return P, f


def pos_syms(prefix):
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith(prefix + '['):
            return abs(s.basic(a))
    return hk


def R06(r):
    """projected Gauss-Seidel: every block update uses the freshest impulses, and a sweep is accepted only when it does not increase the merit"""
    for cls, nb, K in ((CO, 4, 2), (HI, 5, 2), (PS, 4, 2)) + (((CO, 4, 3), (HI, 5, 3), (PS, 4, 3)) if r.tier == 'thorough' else ()):
        W = rworld(r)
        f = W.fn(cls + '.sweep')
        D_ = 3
        nm = cls.split('.')[-1]
        with r.section(nm + ' sweep', f):
            P, F = problem(W, cls, K, nb, D_)
            W.meth(P, 'sweep')
            x = list(F['x'])
            for k in range(K):
                w = [dot(F['WJT'][d], x) for d in range(D_)]
                z = [x[nb * k + i] - F['r'][nb * k + i] * (dot(F['J'][nb * k + i], w) + F['b'][nb * k + i]) for i in range(nb)]
                if cls == HI:
                    y = z
                else:
                    n = tm.fmax(ZERO, z[0])
                    if cls == PS:
                        y = [n, ZERO, ZERO, ZERO]
                    else:
                        rad = F['mu'][k] * n
                        l = tm.sqrt(z[1] * z[1] + z[2] * z[2] + z[3] * z[3])
                        sc = tm.ite(tm.le(l, rad), ONE, rad / l)
                        y = [n] + [tm.ite(tm.le(n, ZERO), ZERO, z[i] * sc) for i in (1, 2, 3)]
                x[nb * k:nb * k + nb] = y
            got = cells(W, W.get(P, 'x'))
            for i in range(nb * K):
                r.eq('%s sweep (%d constraints): impulse %d' % (nm, K, i), got[i], x[i], f, hooks=[pos_syms('mu'), pos_syms('r')])
    solver_loop(r)
    # accept / rollback / merit
    for cls, nb in ((CO, 4), (HI, 5)):
        nm = cls.split('.')[-1]
        W = rworld(r)
        f = W.fn(cls + '.accept_iterate')
        with r.section(nm + ' accept', f):
            P, F = problem(W, cls, 1, nb, 2)
            W.meth(P, 'accept_iterate')
            eqv(r, nm + ' accepting stores the iterate as best solution', W, W.get(P, 'sol'), F['x'], f)
            eqv(r, nm + ' accepting keeps the iterate', W, W.get(P, 'x'), F['x'], f)
            r.fact(nm + ' the accepted solution does not share storage with the iterate', storage(W.get(P, 'sol')) != storage(W.get(P, 'x')), f, 'sol and x are the same array')
        W = rworld(r)
        f = W.fn(cls + '.rollback_iterate')
        with r.section(nm + ' rollback', f):
            P, F = problem(W, cls, 1, nb, 2)
            W.meth(P, 'rollback_iterate')
            eqv(r, nm + ' rollback restores the best solution', W, W.get(P, 'x'), F['sol'], f)
            eqv(r, nm + ' rollback keeps the best solution', W, W.get(P, 'sol'), F['sol'], f)
            r.fact(nm + ' after rollback iterate and solution do not share storage', storage(W.get(P, 'sol')) != storage(W.get(P, 'x')), f, 'sol and x are the same array')
        W = rworld(r)
        f = W.fn(cls + '.compute_merit_value')
        with r.section(nm + ' merit', f):
            P, F = problem(W, cls, 1, nb, 2)
            m = W.meth(P, 'compute_merit_value')
            want = ZERO
            for a, b in zip(F['x'], F['sol']):
                want = tm.fmax(want, tm.absval(a - b))
            r.eq(nm + ' merit is the largest change since the best solution', m, want, f)
        W = rworld(r)
        f = W.fn(cls + '.change_r_factors')
        with r.section(nm + ' r factors', f):
            P, F = problem(W, cls, 1, nb, 2)
            W.meth(P, 'change_r_factors', tm.sym('rate'))
            eqv(r, nm + ' r-factors scale by the rate', W, W.get(P, 'r'), F['r'] * tm.sym('rate'), f)


def R07(r):
    """contact impulses never pull and friction stays inside the Coulomb cone, after every sweep and in the initial guess"""
    f = SR + 'prox_operators.prox_sphere'
    W = rworld(r)
    z, mu, xn = V('z', 3), tm.sym('mu'), tm.sym('xn')
    with r.section('prox_sphere', f):
        f = W.fn(f)
        c = cells(W, W.call(f, z[0], z[1], z[2], mu, xn))
        l2 = dot(c, c)
        lz = norm(z)
        hk = [pos_hook('mu')]
        for nm, h in (('', hk), (' (small normal force)', [scale_sym('xn', 0.05)] + hk), (' (large friction)', [scale_sym('mu', 9.0)] + hk)):
            r.le('projected friction stays in the cone' + nm, l2, tm.fmax(ZERO, mu * xn) * tm.fmax(ZERO, mu * xn), f, hooks=h)
            r.le('projection does not flip the direction' + nm, ZERO, dot(c, z), f, hooks=h)
            for i in range(3):
                r.eq('projection is parallel to the argument%s [%d]' % (nm, i), cross(c, z)[i], ZERO, f, hooks=h)
                if nm == ' (large friction)':
                    r.eq('friction inside the cone is unchanged%s [%d]' % (nm, i), c[i], z[i], f, hooks=h, care=tm.lt(ZERO, xn) & tm.le(lz, mu * xn))
            r.eq('friction outside the cone lands on its boundary' + nm, l2, mu * mu * xn * xn, f, hooks=h, care=tm.lt(ZERO, xn) & tm.lt(mu * xn, lz))
            r.eq('no normal force, no friction' + nm, l2, ZERO, f, hooks=h, care=tm.le(xn, ZERO))
    for cls in (CO, PS):
        nm = cls.split('.')[-1]
        W = rworld(r)
        f = W.fn(cls + '.sweep')
        with r.section(nm + ' sweep', f):
            K = 2
            P, F = problem(W, cls, K, 4, 3)
            W.meth(P, 'sweep')
            x = cells(W, W.get(P, 'x'))
            for h, tag in (([], ''), ([scale_sym('J', 0.1)], ' (weak coupling)'), ([scale_sym('b', 6.0)], ' (fast approach)')):
                hk = [pos_syms('mu'), pos_syms('r')] + h
                for k in range(K):
                    y = x[4 * k:4 * k + 4]
                    r.le('%s contact %d: normal impulse is not negative%s' % (nm, k, tag), ZERO, y[0], f, hooks=hk)
                    if cls == CO:
                        r.le('%s contact %d: friction impulse within the cone%s' % (nm, k, tag), dot(y[1:], y[1:]), F['mu'][k] * F['mu'][k] * y[0] * y[0], f, hooks=hk)
                    else:
                        r.eq('%s contact %d: no friction in the projection%s' % (nm, k, tag), dot(y[1:], y[1:]), ZERO, f, hooks=hk)
    dt, k = tm.sym('dt'), tm.sym('ιc')
    with r.section('initial guess', CO):
        W, E, S, C = setup(r, CO, dt)
        f = W.fn(CO + '.initialize')
        for a in ('x', 'sol'):
            for i in range(4):
                r.eq('contacts start from zero impulses (%s[%d])' % (a, i), W.ip.sel(W.get(C, a), (4 * k + i,), W.st), ZERO, f)
        r.fact('iterate and best solution are different arrays', storage(W.get(C, 'x')) != storage(W.get(C, 'sol')), f, 'x and sol are the same array')
        r.eq('every contact is swept', W.get(C, 'K'), tm.app('len', 'contacts'), f)
    with r.section('initial projection', PS):
        W, E, S, C = setup(r, CO, dt)
        P2 = W.new(PS, C)
        f = W.fn(PS + '.initialize')
        W.meth(P2, 'initialize', ONE, S, E)
        for a in ('x', 'sol'):
            for i in range(4):
                r.eq('projection starts from zero (%s[%d])' % (a, i), W.ip.sel(W.get(P2, a), (4 * k + i,), W.st), ZERO, f)
        r.eq('every contact is projected', W.get(P2, 'K'), tm.app('len', 'contacts'), f)


def scale_sym(name, k):
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and (a.args[0] == name or a.args[0].startswith(name + '[')):
            return abs(s.basic(a)) * k if name in ('mu', 'r') else s.basic(a) * k
    return hk


SOL = SR + 'gauss_seidel_solver.solve'


def ghost_problems(W, classes):
    """problems whose sweep and merit are uninterpreted functions of iterate, best solution and r-factors"""
    def sweep(ip, st, args, kw):
        o = args[0]
        x, rr = ip.getattr(o, 'x', st), ip.getattr(o, 'r', st)
        cx, cr = ip.cells(x, st), ip.cells(rr, st)
        ip.write(x, np.array([tm.app('sweep', i, ip.getattr(o, 'tag', st), *cx, *cr) for i in range(len(cx))], dtype=object), st)

    def merit(ip, st, args, kw):
        o = args[0]
        return tm.app('merit', ip.getattr(o, 'tag', st), *ip.cells(ip.getattr(o, 'x', st), st), *ip.cells(ip.getattr(o, 'sol', st), st))
    W.ip.models[SR + 'constraints.problem.Problem.compute_merit_value'] = merit
    out = []
    for i, c in enumerate(classes):
        W.ip.models[c + '.sweep'] = sweep
        W.ip.models[c + '.compute_merit_value'] = merit
        P = W.new(c)
        for a in ('x', 'sol', 'r', 'error'):
            W.ip.setattr(P, a, A(W, V('%s%d' % (a, i), 1)), W.st)
        W.ip.setattr(P, 'tag', lift(i), W.st)
        out.append(P)
    return out


def solver_loop(r):
    from itertools import product
    W = rworld(r)
    f = W.fn(SOL)
    E = W.engine()
    P = W.get(E, 'params')
    nr, ni, small, at, rt, mi = [W.get(P, a) for a in ('nu_reduce', 'nu_increase', 'too_small_merit_change', 'absolute_tolerance', 'relative_tolerance', 'max_iterations')]
    with r.section('solver', f):
        Ps = ghost_problems(W, (CO, HI))
        before = {(i, a): W.get(p, a) for i, p in enumerate(Ps) for a in ('x', 'sol', 'r')}
        W.call(f, E, W.ip.lst(Ps, W.st), W.dct(), profiling(), '')
        L = next((L for L in W.ip.loops if L.fn is not None and any(l[0] == 'arr' or l[0] == 'obj' and l[1] in [p.oid for p in Ps] for l in L.phis)), None)
        if L is None:
            r.undecided('solver iteration', f, 'iteration loop not found')
            return
        loc = {}
        for i, p in enumerate(Ps):
            for a in ('x', 'sol', 'r'):
                o = before[i, a]
                loc[i, a] = L.phis.get(('arr', o.oid, 0))
                if loc[i, a] is None and ('obj', p.oid, a) in L.phis and L.end is not None:
                    # a new array in every iteration
                    ph, init, step = L.phis['obj', p.oid, a]
                    if isinstance(ph, tuple) and ph[0] == 'arrphi':
                        loc[i, a] = (tm.sym('%s[0]' % ph[1]), W.ip.cells(init, W.st)[0], W.ip.cells(step, L.end)[0])
        if any(v is None for v in loc.values()):
            r.undecided('solver iteration', f, 'iterate is not updated in place')
            return
        r.eq('the number of sweeps is bounded by the iteration limit', L.n, mi, f)
        inf = [(l, ph, step) for l, (ph, init, step) in L.phis.items() if isinstance(init, T) and init is tm.sym('inf')]
        const = (None, tm.sym('inf'), tm.sym('inf'))      # a merit that is never updated
        cands = [c for c in product(inf + [const], repeat=3) if len({x[1] for x in c if x is not const}) == sum(x is not const for x in c)]
        cands.sort(key=lambda c: sum(x is const for x in c))

        def spec(c):
            want, gm, last2 = {}, ZERO, []
            for i in range(2):
                x, s, rf = [loc[i, a][0] for a in ('x', 'sol', 'r')]
                y = tm.app('sweep', 0, lift(i), x, rf)
                m = tm.app('merit', lift(i), y, s)
                lm = c[i][1]
                bad = tm.lt(lm, m)
                want[i, 'x'] = want[i, 'sol'] = tm.ite(bad, s, y)
                want[i, 'r'] = tm.ite(bad, nr * rf, tm.ite(tm.lt(lm - m, small), ni * rf, rf))
                want[i, 'merit'] = tm.ite(bad, lm, m)
                gm = tm.fmax(gm, want[i, 'merit'])
            want['gm'] = gm
            want['exit'] = tm.lt(gm, at) | tm.lt(tm.absval(gm - c[2][1]), rt * c[2][1])
            return want
        hk = [solver_hook]

        def fits(c):
            w = spec(c)
            return all(tm.equal(loc[i, 'sol'][2], w[i, 'sol'], hooks=hk, samples=8).equal is not False for i in range(2)) \
                and tm.equal(c[2][2], w['gm'], hooks=hk, samples=8).equal is not False
        c = next((c for c in cands if fits(c)), None) or next(iter(cands), None)
        if c is None:
            r.undecided('solver iteration', f, 'merit values carried between iterations not found')
            return
        w = spec(c)
        for i in range(2):
            r.eq('problem %d: best solution changes only when the merit does not grow' % i, loc[i, 'sol'][2], w[i, 'sol'], f, hooks=hk)
            r.eq('problem %d: iterate restarts from the best solution' % i, loc[i, 'x'][2], w[i, 'x'], f, hooks=hk)
            r.eq('problem %d: r-factors shrink on divergence and grow on stagnation' % i, loc[i, 'r'][2], w[i, 'r'], f, hooks=hk)
            r.eq('problem %d: the merit to beat is the last accepted one' % i, c[i][2], w[i, 'merit'], f, hooks=hk)
        r.eq('overall merit is the largest accepted merit', c[2][2], w['gm'], f, hooks=hk)
        r.eq('stops early only when converged', L.ret | L.brk, w['exit'], f, hooks=hk, samples=60)


def solver_hook(s, a):
    if a.op == 'merit':
        return abs(s.basic(a))
    if a.op == 'sym' and isinstance(a.args[0], str):
        if a.args[0].endswith(('_tolerance', 'too_small_merit_change')):
            return abs(s.basic(a)) * 0.3
        if a.args[0].startswith('engine.params.') or a.args[0].startswith('φ:'):
            return abs(s.basic(a))


def storage(v):
    return getattr(v, 'oid', None) if not isinstance(v, View) else v.oid
