"""Rigid bodies: mass properties and the body frame of shapes."""
import itertools
from .lib import *
from .rules_soft import ints
from .rules_misc import num

MA = SR + 'mass.'
API = SR + 'api.'
INERTIA = ('Ixx', 'Iyy', 'Izz', 'Ixy', 'Ixz', 'Iyz')


def R17(r):
    """mass properties of surface meshes and the frame shapes are kept in"""
    with tm.compact():
        integrals(r)
    frame(r)
    shapes(r)


def moments(P, tris):
    """volume, first and second moments of the solid inside a closed surface: signed tetrahedra to the origin"""
    v, c, S = ZERO, arr([0, 0, 0]), arr(np.zeros((3, 3), dtype=int))
    for t in tris:
        p = [P[i] for i in t]
        w = dot(p[0], cross(p[1], p[2])) / 6
        s = p[0] + p[1] + p[2]
        v, c = v + w, arr(c + s * w / 4)
        for i in range(3):
            for j in range(3):
                S[i, j] = S[i, j] + w / 20 * (p[0][i] * p[0][j] + p[1][i] * p[1][j] + p[2][i] * p[2][j] + s[i] * s[j])
    return v, c, S


TET = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
PYR = [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2], [0, 2, 1]]
BASE = {4: [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], 5: [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [.4, .5, 1]]}


def solid(n):
    """well shaped closed surfaces somewhere in space"""
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('V['):
            i, j = eval(a.args[0][1:])
            o = s.basic(tm.sym('off%d' % j).as_atom())
            return BASE[n][i][j] * (1 + j) + .25 * max(-1.0, min(1.0, s.basic(a))) + 2 * o
        return None
    return hk


def integrals(r):
    f0 = MA + 'compute_mass_properties'
    cases = [(4, TET, 'tetrahedron', z) for z in ('x', 'y', 'z', 'xyzx', 'zxyy')] + [(5, PYR, 'pyramid', z) for z in ('yzxzyx', 'x')]
    for n, tris, nm, zs in cases:
        W = world(r)
        f = W.fn(f0)
        tag = '%s, projections %s' % (nm, zs)
        with r.section('mass properties ' + tag, f, total=True):
            calls = []

            def axis(ip, st, a, kw):
                calls.append(ip.cells(a[0], st))
                return lift('xyz'.index(zs[(len(calls) - 1) % len(zs)]))
            W.ip.models['rainbow.math.vector3.max_abs_component'] = axis
            P = V('V', (n, 3))
            rho = tm.sym('rho')
            p = W.call(f, A(W, P), ints(W, tris), rho)
            v, c, S = moments(P, tris)
            m = rho * v
            want = {'mass': m, 'x': c[0] / v, 'y': c[1] / v, 'z': c[2] / v, 'Ixx': rho * (S[1, 1] + S[2, 2]), 'Iyy': rho * (S[0, 0] + S[2, 2]), 'Izz': rho * (S[0, 0] + S[1, 1]),
                    'Ixy': -rho * S[0, 1], 'Ixz': -rho * S[0, 2], 'Iyz': -rho * S[1, 2]}
            # a face is projected along a component its normal has
            good = tm.lt(ZERO, v)
            for i, t in enumerate(tris):
                nt = cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])
                good = good & tm.lt(norm(nt) / 20, tm.absval(nt['xyz'.index(zs[i % len(zs)])]))
            for k, x in want.items():
                r.eq('%s of a %s' % (k, tag), W.get(p, k), x, f, hooks=[solid(n), pos_hook('rho')], care=good)
            if zs == 'x' and nm == 'tetrahedron':
                for t, got in zip(tris, calls):
                    want = cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])
                    eqv(r, 'projection along the largest component of the face normal %s' % t, W, A(W, got), want / norm(want), f, hooks=[solid(n)])
                eqv(r, 'integration keeps the vertices', W, A(W, P), V('V', (n, 3)), f)
    # inside out or flat meshes are rejected
    W = world(r)
    f = W.fn(f0)
    with r.section('bad mesh', f):
        n = [0]

        def axis(ip, st, a, kw):
            return ZERO
        W.ip.models['rainbow.math.vector3.max_abs_component'] = axis
        P = V('V', (4, 3))
        W.call(f, A(W, P), ints(W, TET), tm.sym('rho'))
        v, c, S = moments(P, TET)
        r.holds('only meshes of positive volume get mass properties', tm.lt(ZERO, v), f, care=W.st.pc, hooks=[axis_hook])
        r.holds('meshes of positive volume get mass properties', W.st.pc, f, care=tm.lt(tm.lift(1) / 1000, v), hooks=[axis_hook, pos_hook('rho')])


def axis_hook(s, a):
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('V['):
        i, j = eval(a.args[0][1:])
        k = 1 if s.basic(tm.sym('flip').as_atom()) > 0 else -1
        return BASE[4][i][j] * (k if j == 0 else 1) + .2 * max(-1.0, min(1.0, s.basic(a)))
    return None


def frame(r):
    """x_model = q * x_body + r diagonalizes the inertia tensor about the center of mass"""
    f0 = MA + 'xform_model_2_body_space'
    dists = list(itertools.permutations((1, 2, 4))) + [(1, 1, 3), (3, 1, 1), (3, 1, 3), (2, 2, 2)]
    for solver in ('eigh', 'eig'):
        for d in dists:
            for flip in (1, -1):
                if solver == 'eigh' and list(d) != sorted(d):
                    continue
                # one world per order in which the eigenvalues may be returned and per handedness of the eigenvectors
                W = world(r)
                f = W.fn(f0)
                tag = '%s, moments %s%s' % (solver, list(d), '' if flip > 0 else ', left handed')
                Rm = qmat(V('q', 4))
                Rm[:, 2] = [x * flip for x in Rm[:, 2]]
                U = Rm.copy()
                if solver == 'eig':
                    # eigenvectors of equal eigenvalues are independent, not orthogonal
                    for i, j in ((0, 1), (0, 2), (1, 2)):
                        if d[i] == d[j]:
                            co, si = tm.fun('cos', tm.sym('a%d%d' % (i, j))), tm.fun('sin', tm.sym('a%d%d' % (i, j)))
                            U[:, j] = [x * co + y * si for x, y in zip(Rm[:, i], Rm[:, j])]
                seen = []

                def eig(ip, st, a, kw, U=U, d=d, seen=seen):
                    seen.append(ip.cells(a[0], st).copy())
                    return (ip.arr(arr(list(d)), st), ip.arr(U, st))
                other = {'eig': 'eigh', 'eigh': 'eig'}[solver]

                def no(ip, st, a, kw, seen=seen):
                    seen.append(None)
                    raise Unsupported('other eigenvalue routine')
                W.ip.models['numpy.linalg.' + solver] = eig
                W.ip.models['numpy.linalg.' + other] = no
                seen_other = seen
                try:
                    with r.section('body frame ' + tag, f):
                        p = W.new(MA + 'MassProperties')
                        for k in ('mass', 'x', 'y', 'z') + INERTIA:
                            W.ip.setattr(p, k, tm.sym(k), W.st)
                        rr, q, m, I = items(W, W.call(f, p))
                        kw = dict(hooks=[unit_hook('q'), pos_hook('mass')])
                        eqv(r, 'body origin is the center of mass (%s)' % tag, W, rr, [tm.sym(k) for k in 'xyz'], f, **kw)
                        r.eq('mass is kept (%s)' % tag, m, tm.sym('mass'), f, **kw)
                        c = [tm.sym(k) for k in 'xyz']
                        s = tm.sym
                        M = [[s('Ixx'), s('Ixy'), s('Ixz')], [s('Ixy'), s('Iyy'), s('Iyz')], [s('Ixz'), s('Iyz'), s('Izz')]]
                        if len(seen) != 1:
                            r.undecided('inertia about the center of mass (%s)' % tag, f, '%d eigenvalue problems' % len(seen))
                            continue
                        cc = dot(c, c)
                        Ac = arr([[M[i][j] - s('mass') * ((cc if i == j else ZERO) - c[i] * c[j]) for j in range(3)] for i in range(3)])
                        eqv(r, 'the diagonalized tensor is the inertia about the center of mass (%s)' % tag, W, A(W, seen[0]), Ac, f, **kw)
                        q = cells(W, q)
                        I = cells(W, I)
                        r.eq('body frame orientation is a unit quaternion (%s)' % tag, dot(q, q), ONE, f, **kw)
                        Q = qmat(q)
                        ref = matmul(matmul(Rm, arr([[d[i] if i == j else 0 for j in range(3)] for i in range(3)])), Rm.T)
                        got = matmul(matmul(Q, arr([[I[i] if i == j else 0 for j in range(3)] for i in range(3)])), Q.T)
                        eqv(r, 'body frame axes are the principal axes of the moments (%s)' % tag, W, A(W, got), ref, f, **kw)
                        for k in ('mass', 'x', 'y', 'z') + INERTIA:
                            r.eq('the argument keeps its %s (%s)' % (k, tag), W.get(p, k), tm.sym(k), f)
                finally:
                    # the routine the code does not use leaves nothing to decide
                    if seen and seen[0] is None:
                        r.obs[:] = [o for o in r.obs if o.name != 'body frame ' + tag]
                        r.obs[:] = [o for o in r.obs if '(%s)' % tag not in o.name]


def shapes(r):
    """create_shape keeps the mesh in the body frame"""
    n = 5
    for tag, flag in (('default', None), ('body frame', True), ('model frame', False), ('duplicate', None)):
        W = world(r)
        f = W.fn(API + 'create_shape')
        with r.section('create_shape ' + tag, f, total=tag != 'duplicate'):
            E = W.new(RT + '.Engine')
            P = W.get(E, 'params')
            for a in ('envelope', 'resolution'):
                W.ip.setattr(P, a, tm.sym(a), W.st)
            mesh = W.new('rainbow.geometry.surface_mesh.Mesh', A(W, V('V', (n, 3))), ints(W, PYR))
            old = NObj('old', {})
            W.ip.np.setitem(W.get(E, 'shapes'), 'old', old, W.st)
            prop = NObj('prop', {})
            log = []

            def mp(ip, st, a, kw):
                log.append(('mass', ip.cells(a[0], st).copy(), ip.cells(a[1], st), a[2]))
                return prop

            def xf(ip, st, a, kw):
                log.append(('xform', a[0]))
                return (ip.arr(V('r', 3), st), ip.arr(V('q', 4), st), tm.sym('m'), ip.arr(V('I', 3), st))

            def sd(ip, st, a, kw):
                log.append(('grid', ip.cells(a[0], st).copy(), ip.cells(a[1], st), a[2:], kw))
                return NObj('grid', {})
            W.ip.models[MA + 'compute_mass_properties'] = mp
            W.ip.models[MA + 'xform_model_2_body_space'] = xf
            W.ip.models['rainbow.geometry.grid3.create_signed_distance'] = sd
            name = 'old' if tag == 'duplicate' else 'new'
            done = True
            try:
                W.call(f, E, name, mesh, *([] if flag is None else [TRUE if flag else FALSE]))
            except Dead:
                done = False
            if tag == 'duplicate':
                r.fact('a second shape of the same name is rejected', not done, f, 'accepted')
                continue
            hk = dict(hooks=[unit_hook('q'), pos_hook('envelope')])
            sh = W.ip.np.getitem(W.get(E, 'shapes'), 'new', W.st) if hasattr(W.ip.np, 'getitem') else None
            r.fact('other shapes stay (%s)' % tag, W.ip.same(W.ip.np.getitem(W.get(E, 'shapes'), 'old', W.st), old), f, 'replaced')
            body = arr([matvec(qmat(V('q', 4)).T, p - V('r', 3)) for p in V('V', (n, 3))])
            X = V('V', (n, 3)) if flag is False else body
            eqv(r, 'mesh of the shape is in its body frame (%s)' % tag, W, W.get(W.get(sh, 'mesh'), 'V'), X, f, **hk)
            eqv(r, 'triangles are kept (%s)' % tag, W, W.get(W.get(sh, 'mesh'), 'T'), arr(PYR), f)
            r.fact('name of the shape (%s)' % tag, W.get(sh, 'name') == 'new', f, 'name %s' % (W.get(sh, 'name'),))
            kinds = [x[0] for x in log]
            if r.fact('mass properties and distance field are computed once (%s)' % tag, kinds.count('mass') == 1 and kinds.count('xform') == 1 and kinds.count('grid') == 1, f, '%s' % kinds):
                x = next(x for x in log if x[0] == 'mass')
                eqv(r, 'mass properties of the mesh as given (%s)' % tag, W, A(W, x[1]), V('V', (n, 3)), f)
                eqv(r, 'mass properties of all triangles (%s)' % tag, W, A(W, x[2]), arr(PYR), f)
                r.eq('shapes have unit density (%s)' % tag, x[3], ONE, f)
                r.fact('frame of these mass properties (%s)' % tag, next(x for x in log if x[0] == 'xform')[1] is prop, f, 'other mass properties')
                eqv(r, 'body to model translation (%s)' % tag, W, W.get(sh, 'r'), V('r', 3), f)
                eqv(r, 'body to model rotation (%s)' % tag, W, W.get(sh, 'q'), V('q', 4), f)
                r.eq('mass of the shape (%s)' % tag, W.get(sh, 'mass'), tm.sym('m'), f)
                eqv(r, 'inertia of the shape (%s)' % tag, W, W.get(sh, 'inertia'), V('I', 3), f)
                g = next(x for x in log if x[0] == 'grid')
                eqv(r, 'distance field of the mesh in its body frame (%s)' % tag, W, A(W, g[1]), X, f, **hk)
                eqv(r, 'distance field of all triangles (%s)' % tag, W, A(W, g[2]), arr(PYR), f)
                a = list(g[3]) + [g[4][k] for k in ('I', 'J', 'K', 'boundary') if k in g[4]]
                if len(a) == 4:
                    for i in range(3):
                        r.eq('resolution of the distance field (%s, %d)' % (tag, i), a[i], tm.sym('resolution'), f)
                    L = ZERO
                    for j in range(3):
                        lo = hi = X[0][j]
                        for p in X[1:]:
                            lo, hi = tm.fmin(lo, p[j]), tm.fmax(hi, p[j])
                        L = tm.fmax(L, hi - lo)
                    r.eq('margin of the distance field (%s)' % tag, a[3], tm.fmax(L / 10, 2 * tm.sym('envelope')), f, **hk)
                r.fact('the distance field is stored (%s)' % tag, getattr(W.get(sh, 'grid'), 'name', '') == 'grid', f, 'other grid')
    W = world(r)
    f = W.fn(API + 'create_mesh')
    with r.section('create_mesh', f, total=True):
        log = []

        def dm(ip, st, a, kw):
            log.append(('dir', ip.cells(a[0], st).copy()))
            return ip.arr(V('axis', 3), st)

        def sort(ip, st, a, kw):
            log.append(('sort', a[0], ip.cells(a[1] if len(a) > 1 else kw['axis'], st)))
        W.ip.models['rainbow.math.functions.direction_of_most_variance'] = dm
        W.ip.models['rainbow.geometry.surface_mesh.axis_sort'] = sort
        m = W.call(f, A(W, V('V', (n, 3))), ints(W, PYR))
        eqv(r, 'vertices of a new mesh', W, W.get(m, 'V'), V('V', (n, 3)), f)
        eqv(r, 'triangles of a new mesh', W, W.get(m, 'T'), arr(PYR), f)
        if r.fact('a new mesh is sorted along its direction of most variance', [x[0] for x in log] == ['dir', 'sort'], f, '%s' % [x[0] for x in log]):
            eqv(r, 'direction of the vertices', W, A(W, log[0][1]), V('V', (n, 3)), f)
            r.fact('the new mesh is sorted', W.ip.same(log[1][1], m), f, 'other mesh')
            eqv(r, 'sorting axis', W, A(W, log[1][2]), V('axis', 3), f)
