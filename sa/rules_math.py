"""Rotation and vector algebra."""
from .lib import *

QM = 'rainbow.math.quaternion.'
M3 = 'rainbow.math.matrix3.'
V3 = 'rainbow.math.vector3.'
CS = 'rainbow.math.coordsys.'
EU = 'rainbow.math.euler.'
EX = 'rainbow.math.expmap.'


def M01(r):
    """to_matrix/rotate/prod/conjugate/axis constructors are one and the same representation of the rotation group"""
    W = world(r)
    q, p, v = V('q', 4), V('qp', 4), V('v', 3)
    u4 = unit_hook('q', 'qp')
    f = W.fn(QM + 'to_matrix')
    with r.section('to_matrix', f):
        M = cells(W, W.call(f, A(W, q)))
        eqv(r, 'to_matrix(unit q)', W, M, qmat(q), f, hooks=[u4])
        # arbitrary scale: still the rotation of the normalised quaternion
        n2 = dot(q, q)
        eqv(r, 'to_matrix(q) of any nonzero q', W, M, qmat(q) / n2, f, care=~tm.eq0(n2))
        eqv(r, 'to_matrix orthogonal', W, matmul(M, M.T), eye(3), f)
        r.eq('to_matrix determinant', det3(M), ONE, f)
    f = W.fn(QM + 'rotate')
    with r.section('rotate', f):
        eqv(r, 'rotate', W, W.call(f, A(W, q), A(W, v)), qrot(q, v), f, hooks=[u4])
    f = W.fn(QM + 'prod')
    with r.section('prod', f):
        eqv(r, 'prod', W, W.call(f, A(W, q), A(W, p)), qmul(q, p), f)
    f = W.fn(QM + 'conjugate')
    with r.section('conjugate', f):
        eqv(r, 'conjugate', W, W.call(f, A(W, q)), qconj(q), f)
    f = W.fn(QM + 'unit')
    with r.section('unit', f):
        c = cells(W, W.call(f, A(W, q)))
        r.eq('unit has length one', dot(c, c), ONE, f)
        n = norm(q)
        eqv(r, 'unit keeps direction', W, c, q / n, f, care=~tm.eq0(dot(q, q)))
        for nm, k in (('small', 1e-6), ('large', 1e6)):
            eqv(r, 'unit keeps the direction of %s quaternions' % nm, W, W.call(f, A(W, arr([lift(k) * x for x in q]))), q / n, f, care=~tm.eq0(dot(q, q)))
    f = W.fn(QM + 'from_vector3')
    with r.section('from_vector3', f):
        eqv(r, 'from_vector3', W, W.call(f, A(W, v)), arr([0, v[0], v[1], v[2]]), f)
    f = W.fn(QM + 'identity')
    with r.section('identity', f):
        eqv(r, 'identity', W, W.call(f), arr([1, 0, 0, 0]), f)
    t = tm.sym('theta')
    h = t / 2
    for ax, name in enumerate('xyz'):
        f = W.fn(QM + 'R' + name)
        with r.section('R' + name, f):
            w = [tm.fun('cos', h), ZERO, ZERO, ZERO]
            w[1 + ax] = tm.fun('sin', h)
            eqv(r, 'quaternion R' + name, W, W.call(f, t), arr(w), f)
        g = W.fn(M3 + 'R' + name)
        with r.section('M3.R' + name, g):
            a = [ZERO] * 3
            a[ax] = ONE
            eqv(r, 'matrix R' + name, W, W.call(g, t), rodrigues(t, a), g)
    ax = V('a', 3)
    f = W.fn(QM + 'Ru')
    with r.section('Ru', f):
        n = norm(ax)
        eqv(r, 'quaternion Ru', W, W.call(f, t, A(W, ax)), arr([tm.fun('cos', h)] + [tm.fun('sin', h) * x / n for x in ax]), f)
    f = W.fn(M3 + 'Ru')
    with r.section('M3.Ru', f):
        n = norm(ax)
        eqv(r, 'matrix Ru', W, W.call(f, t, A(W, ax)), rodrigues(t, [x / n for x in ax]), f)
    f = W.fn(M3 + 'star')
    with r.section('star', f):
        eqv(r, 'star', W, W.call(f, A(W, v)), star(v), f)
    # vectorised forms agree with the scalar ones
    Qs = V('Qs', (3, 4))
    f = W.fn(QM + 'prod_array')
    with r.section('prod_array', f):
        eqv(r, 'prod_array(q, array)', W, W.call(f, A(W, q), A(W, Qs)), np.array([qmul(q, x) for x in Qs]), f)
        eqv(r, 'prod_array(array, q)', W, W.call(f, A(W, Qs), A(W, q)), np.array([qmul(x, q) for x in Qs]), f)
    vs = V('vs', (3, 3))
    f = W.fn(QM + 'rotate_array')
    with r.section('rotate_array', f):
        eqv(r, 'rotate_array', W, W.call(f, A(W, q), A(W, vs)), np.array([qrot(q, x) for x in vs]), f, hooks=[u4])
    f = W.fn(QM + 'to_angle_axis')
    with r.section('to_angle_axis', f):
        th, axis = W.ip.unpack_value(W.call(f, A(W, q)), 2, W.st) if hasattr(W.ip, 'unpack_value') else W.call(f, A(W, q))
        c = cells(W, axis)
        # the pair describes the rotation again: cos(th/2) = q0, sin(th/2) axis = q_v
        care = tm.lt(ZERO, dot(q[1:], q[1:]))
        r.eq('angle-axis cosine', tm.fun('cos', th / 2), q[0], f, hooks=[u4], care=care)
        eqv(r, 'angle-axis vector', W, arr([tm.fun('sin', th / 2) * x for x in c]), q[1:], f, hooks=[u4], care=care)
    f = W.fn(QM + 'to_angle')
    with r.section('to_angle', f):
        qa = arr([tm.fun('cos', h)] + [tm.fun('sin', h) * x for x in V('a', 3)])
        th = W.call(f, A(W, qa), A(W, V('a', 3)))
        hk = [unit_hook('a'), range_hook('theta', -3.0, 3.0)]
        r.eq('to_angle returns the angle about the axis', th, t, f, hooks=hk)
        # whatever the sign of the quaternion: at most half a turn either way
        th = W.call(f, A(W, q), A(W, V('a', 3)))
        r.le('to_angle is at most half a turn', th, tm.PI, f, hooks=[unit_hook('q', 'a')])
        r.le('to_angle is at most half a turn backwards', -tm.PI, th, f, hooks=[unit_hook('q', 'a')])


def rodrigues(t, u):
    c, s = tm.fun('cos', t), tm.fun('sin', t)
    out = np.empty((3, 3), dtype=object)
    K = star(arr(u))
    for i in range(3):
        for j in range(3):
            out[i, j] = (c if i == j else ZERO) + s * K[i, j] + (ONE - c) * u[i] * u[j]
    return out


def M02(r):
    """from_matrix is a left inverse of the rotation matrix in every branch; Euler angles reproduce the matrix"""
    W = world(r)
    q = V('q', 4)
    u4 = unit_hook('q')
    f = W.fn(QM + 'from_matrix')
    with r.section('from_matrix', f):
        c = cells(W, W.call(f, A(W, qmat(q))))
        # +-q: outer product equality, in every branch the interpretations reach
        for i in range(4):
            for j in range(i, 4):
                r.eq('from_matrix(R(q)) = ±q [%d%d]' % (i, j), c[i] * c[j], q[i] * q[j], f, hooks=[u4], samples=120)
        for name, hk in FM_CASES:
            for i in range(4):
                r.eq('from_matrix %s [%d]' % (name, i), c[i] * c[i], q[i] * q[i], f, hooks=[hk], samples=20)
                r.eq('from_matrix %s [0%d]' % (name, i), c[0] * c[i], q[0] * q[i], f, hooks=[hk], samples=20)
    f = W.fn(EU + 'make_euler_xyz_from_matrix')
    a, b, g = tm.sym('alpha'), tm.sym('beta'), tm.sym('gamma')

    def R3(x, y, z):
        ex, ey, ez = [ONE, ZERO, ZERO], [ZERO, ONE, ZERO], [ZERO, ZERO, ONE]
        return matmul(rodrigues(z, ez), matmul(rodrigues(y, ey), rodrigues(x, ex)))
    for name, R, hooks in (
            ('regular', R3(a, b, g), [range_hook('beta', -1.5, 1.5)]),
            ('gimbal lock, beta=+pi/2', lock(a, g, ONE), []),
            ('gimbal lock, beta=-pi/2', lock(a, g, -ONE), [])):
        with r.section('euler ' + name, f):
            e = W.call(f, A(W, R))
            x, y, z = W.get(e, 'alpha'), W.get(e, 'beta'), W.get(e, 'gamma')
            eqv(r, 'euler angles reproduce the matrix (%s)' % name, W, R3(x, y, z), R, f, hooks=hooks, samples=30)
    f = W.fn(EU + 'make_euler_xyz_from_quaternion')
    with r.section('euler from quaternion', f):
        e = W.call(f, A(W, q))
        x, y, z = W.get(e, 'alpha'), W.get(e, 'beta'), W.get(e, 'gamma')
        eqv(r, 'euler angles reproduce the quaternion', W, R3(x, y, z), qmat(q), f, hooks=[u4], samples=30)


def lock(a, g, s):
    """Rz(g) Ry(s*pi/2) Rx(a) with the exact values cos=0, sin=s"""
    Ry = arr([[0, 0, s], [0, 1, 0], [-s, 0, 0]])
    return matmul(rodrigues(g, [ZERO, ZERO, ONE]), matmul(Ry, rodrigues(a, [ONE, ZERO, ZERO])))


def _dom(k):
    """interpretations in which component k of q dominates"""
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('q['):
            v = [s.basic(tm.sym('q[%d]' % j).as_atom()) for j in range(4)]
            for j in range(4):
                if j != k:
                    v[j] *= 0.3
            v[k] = v[k] * 2 + (1 if v[k] >= 0 else -1)
            l = sum(x * x for x in v) ** .5
            return v[int(a.args[0][2])] / l
    return hk


FM_CASES = [('dominant component %d' % k, _dom(k)) for k in range(4)]


def M03(r):
    """slerp: unit length, constant-speed shortest arc, exact end points (as rotations)"""
    W = world(r)
    f = W.fn(QM + 'slerp')
    q, p = V('q', 4), V('qp', 4)
    t = tm.sym('t')
    u4 = unit_hook('q', 'qp')
    ht = range_hook('t', 0.02, 0.98)
    with r.section('slerp', f):
        c = cells(W, W.call(f, A(W, q), A(W, p), t))
        hooks = [u4, ht]
        r.eq('slerp has unit length', dot(c, c), ONE, f, hooks=hooks)
        d = dot(q, p)
        om = tm.fun('acos', tm.absval(d))
        r.eq('slerp advances the angle uniformly', tm.absval(dot(c, q)), tm.fun('cos', t * om), f, hooks=hooks)
        r.eq('slerp remaining angle', tm.absval(dot(c, p)), tm.fun('cos', (ONE - t) * om), f, hooks=hooks)
        # also for rotations close to each other
        w = arr([y - d * x for x, y in zip(q, p)])
        r.eq('slerp advances the angle uniformly between close rotations', dot(c, w) / norm(w), tm.fun('sin', t * tm.fun('acos', d)), f, hooks=[near_hook('q', 'qp', 1.0, .07), ht], care=tm.lt(lift(.9), d) & tm.lt(d, lift(.9995)))
        r.eq('slerp of nearly equal rotations has unit length', dot(c, c), ONE, f, hooks=[near_hook('q', 'qp', 1.0, 1e-5), ht])
        r.le('slerp of nearly equal rotations stays near them', lift(0.999), tm.absval(dot(c, q)), f, hooks=[near_hook('q', 'qp', 1.0, 1e-5), ht])
        r.le('slerp of nearly antipodal quaternions stays near them', lift(0.999), tm.absval(dot(c, q)), f, hooks=[near_hook('q', 'qp', -1.0, 1e-5), ht])
        m = cells(W, W.call(f, A(W, q), A(W, p), lift(0.5)))
        r.le('slerp half way between nearly antipodal quaternions stays near them', lift(0.999), tm.absval(dot(m, q)), f, hooks=[near_hook('q', 'qp', -1.0, 1e-5)])
    for name, tv, w in (('start', ZERO, q), ('end', ONE, p), ('below range', lift(-2), q), ('beyond range', lift(3), p)):
        with r.section('slerp ' + name, f):
            c = cells(W, W.call(f, A(W, q), A(W, p), tv))
            r.eq('slerp %s is the same rotation' % name, dot(c, w) * dot(c, w), ONE, f, hooks=[u4])
    f = W.fn(QM + 'lerp')
    with r.section('lerp', f):
        c = cells(W, W.call(f, A(W, q), A(W, p), t))
        eqv(r, 'lerp', W, c, q + (p - q) * t, f, hooks=[ht])
        eqv(r, 'lerp clamps below', W, W.call(f, A(W, q), A(W, p), lift(-1)), q, f)
        eqv(r, 'lerp clamps above', W, W.call(f, A(W, q), A(W, p), lift(2)), p, f)


def near_hook(a, b, sign, eps):
    """interpretations with b = sign*a + small, both unit"""
    def vec(s, nm):
        v = [s.basic(tm.sym('%s[%d]' % (nm, j)).as_atom()) for j in range(4)]
        return v

    def un(v):
        l = sum(x * x for x in v) ** .5
        return [x / l for x in v] if l > 1e-9 else [1.0, 0.0, 0.0, 0.0]

    def hk(s, x):
        if x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].endswith(']'):
            nm, i = x.args[0][:-1].split('[', 1)
            if nm == a:
                return un(vec(s, a))[int(i)]
            if nm == b:
                va = un(vec(s, a))
                vb = vec(s, b)
                return un([sign * m + eps * n for m, n in zip(va, vb)])[int(i)]
        return None
    return hk


def M04(r):
    """coordinate systems: transform, concatenation, inverse and relative frames are the group operations of rigid motions"""
    W = world(r)
    rA, rB, p, v = V('rA', 3), V('rB', 3), V('p', 3), V('v', 3)
    qA, qB = V('qA', 4), V('qB', 4)
    hk = [unit_hook('qA', 'qB')]
    mk = W.fn(CS + 'make')

    def frame(rr, qq):
        return W.call(mk, A(W, rr), A(W, qq))

    def apply(X, pt):
        return qrot(cells(W, W.get(X, 'q')), pt) + cells(W, W.get(X, 'r'))
    X, Y = frame(rA, qA), frame(rB, qB)
    f = W.fn(CS + 'xform_point')
    with r.section('xform_point', f):
        eqv(r, 'xform_point', W, W.call(f, X, A(W, p)), qrot(qA, p) + rA, f, hooks=hk)
    f = W.fn(CS + 'xform_vector')
    with r.section('xform_vector', f):
        eqv(r, 'xform_vector', W, W.call(f, X, A(W, p)), qrot(qA, p), f, hooks=hk)
    f = W.fn(CS + 'xform_matrix')
    with r.section('xform_matrix', f):
        Mx = V('M', (3, 3))
        eqv(r, 'xform_matrix', W, W.call(f, X, A(W, Mx)), matmul(qmat(qA), Mx), f, hooks=hk)
    f = W.fn(CS + 'concat')
    with r.section('concat', f):
        C = W.call(f, Y, X)
        eqv(r, 'concat applies the second argument first', W, apply(C, p), qrot(qB, qrot(qA, p) + rA) + rB, f, hooks=hk)
    f = W.fn(CS + 'inverse')
    with r.section('inverse', f):
        I = W.call(f, X)
        eqv(r, 'inverse undoes the transform', W, apply(I, qrot(qA, p) + rA), p, f, hooks=hk)
    f = W.fn(CS + 'make_coordsys_from_to')
    with r.section('from_to', f):
        C = W.call(f, X, Y)
        # a point given in A, mapped to B, lands at the same world position
        eqv(r, 'from_to preserves world positions', W, qrot(qB, apply(C, p)) + rB, qrot(qA, p) + rA, f, hooks=hk)
    for X2, nm, w in ((X, 'A', (rA, qA)), (Y, 'B', (rB, qB))):
        eqv(r, 'frame %s origin unchanged' % nm, W, W.get(X2, 'r'), w[0], mk)
        eqv(r, 'frame %s orientation unchanged' % nm, W, W.get(X2, 'q'), w[1], mk)


def M05(r):
    """exponential map: exp gives the rotation of angle |v| about v, log inverts it, derivatives are the derivatives of exp"""
    W = world(r)
    v = V('v', 3)
    th = norm(v)
    f = W.fn(EX + 'exp')
    s2 = tm.fun('sin', th / 2)
    ref = arr([tm.fun('cos', th / 2)] + [s2 * x / th for x in v])
    with r.section('exp', f):
        c = cells(W, W.call(f, A(W, v), FALSE))
        eqv(r, 'exp(v) without reparameterisation', W, c, ref, f, hooks=[scale_hook('v', 0.05, 3)])
        r.eq('exp has unit length near zero', dot(c, c), ONE, f, hooks=[scale_hook('v', 1e-9, 1e-7)])
        eqv(r, 'exp near zero', W, c[1:], v / 2, f, hooks=[scale_hook('v', 1e-9, 1e-7)])
    with r.section('exp reparam', f):
        c = cells(W, W.call(f, A(W, v)))
        for nm, hk in (('small', scale_hook('v', 0.05, 3.1)), ('beyond pi', scale_hook('v', 3.2, 6.2)), ('several turns', scale_hook('v', 6.4, 40))):
            eqv(r, 'exp(v) is the rotation about v, angle %s' % nm, W, qmat(c), qmat(ref), f, hooks=[hk], samples=20)
    f = W.fn(EX + 'reparameterization')
    with r.section('reparameterization', f):
        w = cells(W, W.call(f, A(W, v)))
        for nm, hk in (('small', scale_hook('v', 0.05, 3.1)), ('beyond pi', scale_hook('v', 3.2, 6.2)), ('several turns', scale_hook('v', 6.4, 40))):
            r.le('reparameterized angle at most pi, %s' % nm, dot(w, w), lift(9.8696045), f, hooks=[hk])
    f = W.fn(EX + 'log')
    with r.section('log', f):
        q = V('q', 4)
        l = cells(W, W.call(f, A(W, q)))
        # cos(3) < scalar part < 0: a rotation by more than half a turn
        r.le('the logarithm of a rotation by more than half a turn has a length', lift(.01), dot(l, l), f, hooks=[unit_hook('q')], care=tm.lt(q[0], lift(-.05)) & tm.lt(lift(-.99), q[0]))
        for nm, hk in (('generic', unit_hook('q')), ('small angle', _dom(0))):
            lt = norm(l)
            e = arr([tm.fun('cos', lt / 2)] + [tm.fun('sin', lt / 2) * x / lt for x in l])
            eqv(r, 'exp(log(q)) is the same rotation, %s' % nm, W, qmat(e), qmat(q), f, hooks=[hk], care=~tm.eq0(q[0]) & ~tm.eq0(dot(q[1:], q[1:])))
    with r.section('log of half turns', f):
        l = cells(W, W.call(f, A(W, arr([0] + list(q[1:])))))
        r.le('log of a half turn has length pi', lift(9.869), dot(l, l), f, hooks=[unit3_hook('q', (1, 2, 3))])
    for i in range(3):
        f = W.fn(EX + 'dQdv_i')
        with r.section('dQdv_i', f):
            d = cells(W, W.call(f, A(W, v), lift(i)))
            eqv(r, 'dQdv_%d is the derivative of exp' % i, W, d, np.array([D(x, v[i]) for x in ref]), f, hooks=[scale_hook('v', 0.05, 6)])
            eqv(r, 'dQdv_%d near zero' % i, W, d, arr([-v[i] / 4] + [lift(0.5) if j == i else ZERO for j in range(3)]), f, hooks=[scale_hook('v', 1e-9, 1e-7)])
        f = W.fn(EX + 'dRdv_i')
        with r.section('dRdv_i', f):
            d = cells(W, W.call(f, A(W, v), lift(i)))
            R = qmat(ref)
            want = np.empty((3, 3), dtype=object)
            for ix in np.ndindex(3, 3):
                want[ix] = D(R[ix], v[i])
            for nm, hk in (('small', scale_hook('v', 0.05, 3.1)), ('beyond pi', scale_hook('v', 3.2, 6.2))):
                eqv(r, 'dRdv_%d is the derivative of the rotation matrix, angle %s' % (i, nm), W, d, want, f, hooks=[hk])
    f = W.fn(EX + 'dvdt')
    with r.section('dvdt', f):
        om = V('om', 3)
        vd = cells(W, W.call(f, A(W, om), A(W, v)))
        # d exp(v)/dt = 1/2 (0,omega) exp(v)
        got = []
        for k in range(4):
            s = ZERO
            for i in range(3):
                s = s + D(ref[k], v[i]) * vd[i]
            got.append(s)
        hv = scale_hook('v', 0.3, 5)
        left = qmul(arr([0] + list(om)), ref) / 2
        eqv(r, 'dvdt integrates the angular velocity', W, arr(got), left, f, hooks=[hv])


def unit3_hook(p, ixs):
    at = [tm.sym('%s[%d]' % (p, i)).as_atom() for i in ixs]

    def hk(s, a):
        if a in at:
            v = [s.basic(x) for x in at]
            return v[at.index(a)] / (sum(x * x for x in v) ** .5 or 1.0)
    return hk


def scale_hook(name, lo, hi):
    """interpretations with lo <= |name| <= hi"""
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith(name + '['):
            v = [s.basic(tm.sym('%s[%d]' % (name, j)).as_atom()) for j in range(3)]
            l = sum(x * x for x in v) ** .5
            if l < 1e-9:
                v, l = [1.0, 0.0, 0.0], 1.0
            u = (abs(s.basic(tm.sym(name + '|len').as_atom())) - 0.3) / 1.7
            L = lo + (hi - lo) * max(0.0, min(1.0, u))
            return v[int(a.args[0][len(name) + 1:-1])] / l * L
    return hk


def M06(r):
    """frames and vector predicates"""
    W = world(r)
    n = V('n', 3)
    f = W.fn(V3 + 'make_orthonormal_vectors')
    with r.section('make_orthonormal_vectors', f):
        t = W.call(f, A(W, n))
        a, b, c = [cells(W, x) for x in t]
        care = ~tm.eq0(dot(n, n))
        for nm, hk in (('generic', None), ('axis', axis_hook('n'))):
            kw = dict(hooks=[hk] if hk else None, care=care, samples=24)
            r.eq('tangent unit, %s' % nm, dot(a, a), ONE, f, **kw)
            r.eq('binormal unit, %s' % nm, dot(b, b), ONE, f, **kw)
            r.eq('tangent orthogonal to normal, %s' % nm, dot(a, n), ZERO, f, **kw)
            r.eq('binormal orthogonal to normal, %s' % nm, dot(b, n), ZERO, f, **kw)
            r.eq('tangent orthogonal to binormal, %s' % nm, dot(a, b), ZERO, f, **kw)
            eqv(r, 'third vector is the unit normal, %s' % nm, W, c, n / norm(n), f, **kw)
            eqv(r, 'right handed frame t x b = n, %s' % nm, W, cross(a, b), n / norm(n), f, **kw)
    f = W.fn(M3 + 'ortonormalize')
    with r.section('ortonormalize', f):
        Mx = V('M', (3, 3))
        c = cells(W, W.call(f, A(W, Mx)))
        dep = dict(care=tm.lt(lift(0.01), norm(cross(Mx[0], Mx[1]))))     # rows that span a plane
        eqv(r, 'ortonormalize rows orthonormal', W, matmul(c, c.T), eye(3), f, **dep)
        r.eq('ortonormalize determinant', det3(c), ONE, f, **dep)
        eqv(r, 'ortonormalize keeps the first direction', W, c[0], Mx[0] / norm(Mx[0]), f, **dep)
        r.eq('ortonormalize second row in the plane of the first two', dot(c[1], cross(Mx[0], Mx[1])), ZERO, f, **dep)
        r.le('ortonormalize second row on the right side', ZERO, dot(c[1], Mx[1]), f, **dep)
    a, b = V('a', 3), V('b', 3)

    def lex(x, y):
        return tm.lt(x[0], y[0]) | (tm.eqB(x[0], y[0]) & (tm.lt(x[1], y[1]) | (tm.eqB(x[1], y[1]) & tm.lt(x[2], y[2]))))
    for nm, w in (('less', lex(a, b)), ('greather', lex(b, a)), ('less_than_equal', ~lex(b, a)), ('greather_than_equal', ~lex(a, b))):
        f = W.fn(V3 + nm)
        with r.section(nm, f):
            g = W.ip.truth(W.call(f, A(W, a), A(W, b)), W.st)
            r.eq('lexicographic order %s' % nm, g, w, f, samples=80)
            r.eq('lexicographic order %s on ties' % nm, g, w, f, samples=80, hooks=[small_hook])
    f = W.fn(V3 + 'max_abs_component')
    with r.section('max_abs_component', f):
        i = W.call(f, A(W, a))
        m = tm.ite(tm.eq0(i), tm.absval(a[0]), tm.ite(tm.eq0(i - 1), tm.absval(a[1]), tm.absval(a[2])))
        for k in range(3):
            r.le('max_abs_component dominates component %d' % k, tm.absval(a[k]), m, f)
            r.le('max_abs_component dominates component %d on ties' % k, tm.absval(a[k]), m, f, hooks=[small_hook])
        r.holds('max_abs_component in range', tm.le(ZERO, i) & tm.le(i, lift(2)), f)
    f = W.fn(V3 + 'cross')
    with r.section('cross', f):
        eqv(r, 'cross', W, W.call(f, A(W, a), A(W, b)), cross(a, b), f)
    f = W.fn(V3 + 'unit')
    with r.section('unit', f):
        eqv(r, 'unit', W, W.call(f, A(W, a)), a / norm(a), f)
    t = V('m', 9)
    f = W.fn(M3 + 'make')
    with r.section('make', f):
        eqv(r, 'matrix make is row major', W, W.call(f, *list(t)), t.reshape(3, 3), f)
    f = W.fn(M3 + 'make_from_rows')
    with r.section('rows', f):
        eqv(r, 'make_from_rows', W, W.call(f, *[A(W, x) for x in t.reshape(3, 3)]), t.reshape(3, 3), f)
    f = W.fn(M3 + 'make_from_cols')
    with r.section('cols', f):
        eqv(r, 'make_from_cols', W, W.call(f, *[A(W, x) for x in t.reshape(3, 3)]), t.reshape(3, 3).T, f)
    f = W.fn(M3 + 'diag')
    with r.section('diag', f):
        eqv(r, 'diag', W, W.call(f, a[0], a[1], a[2]), arr([[a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]]), f)
    f = W.fn(M3 + 'diag_from_array')
    with r.section('diag_from_array', f):
        eqv(r, 'diag_from_array', W, W.call(f, A(W, a)), arr([[a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]]), f)
    for g, k in (('rainbow.math.angle.radians_to_degrees', '180/pi'), ('rainbow.math.angle.degrees_to_radians', 'pi/180')):
        f = W.fn(g)
        with r.section(g, f):
            import math
            x = tm.sym('x')
            r.eq(g.split('.')[-1], W.call(f, x), x * (180 / math.pi if k == '180/pi' else math.pi / 180), f)


def small_hook(s, a):
    if a.op == 'sym':
        import random
        return float(random.Random(repr((s.seed, a.args))).choice([-1, 0, 1]))


def axis_hook(name):
    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith(name + '['):
            k = s.seed % 3
            i = int(a.args[0][len(name) + 1:-1])
            return (1.5 if s.seed % 2 else -0.7) if i == k else 0.0
    return hk
