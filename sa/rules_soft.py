"""Soft body simulator."""
from .lib import *
from .rules_rigid import tangents, ons_hook
from .rules_rigid2 import time_recurrence, S as Str, str_hook, storage, preexisting, engine_events, choice_attr, choice_item, quiet

SB = 'rainbow.simulators.prox_soft_bodies.'
ME = SB + 'mechanics.'
SO = SB + 'solver.'
NA = SO + 'Native.'
EA = SO + 'ElementArrayUtil.'
AP = SB + 'api.'
CDT = SB + 'collision_detection.'


def tr(M):
    return M[0, 0] + M[1, 1] + M[2, 2]


def inv3(M):
    d = det3(M)
    return arr([[cross(M[:, 1], M[:, 2])[j] / d for j in range(3)], [cross(M[:, 2], M[:, 0])[j] / d for j in range(3)],
                [cross(M[:, 0], M[:, 1])[j] / d for j in range(3)]])


def grad_of(psi, F):
    """derivative of a scalar with respect to the entries of a matrix of symbols"""
    return arr([[D(psi, F[i, j]) for j in range(3)] for i in range(3)])


def S01(r):
    """every constitutive model's stress is the derivative of its own energy density, which is the named model's; strain measures and Lamé parameters are the definitions"""
    lam, mu = tm.sym('lambda'), tm.sym('mu')
    hk = [pos_hook('lambda', 'mu'), near_identity('F')]
    F = V('F', (3, 3))
    C = matmul(F.T, F)
    Eg = arr((C - eye(3)) / 2)
    EE = ZERO
    for i in range(3):
        for j in range(3):
            EE = EE + Eg[i, j] * Eg[i, j]
    svk = lam * tr(Eg) * tr(Eg) / 2 + mu * EE
    m_, l_ = mu * 4 / 3, lam + mu * 5 / 6
    al = 1 + m_ / l_ - m_ / (4 * l_)
    J, IC = det3(F), tr(C)
    snh = m_ * (IC - 3) / 2 + l_ * (J - al) * (J - al) / 2 - m_ * tm.app('log', IC + 1) / 2
    for nm, psi in (('SVK', svk), ('SNH', snh)):
        W = world(r)
        f = W.fn(ME + nm + '.energy_density')
        with r.section('%s energy' % nm, f):
            got = scal(W, W.call(f, A(W, F), lam, mu))
            r.eq('%s energy density is the energy of the model' % nm, got, psi, f, hooks=hk)
        f = W.fn(ME + nm + '.pk1_stress')
        with r.section('%s stress' % nm, f):
            P = cells(W, W.call(f, A(W, F), lam, mu))
            want = grad_of(psi, F)
            for i in range(3):
                for j in range(3):
                    r.eq('%s stress is the derivative of the energy [%d,%d]' % (nm, i, j), P[i, j], want[i, j], f, hooks=hk)
    # corotational model, through the rotation and stretch of the deformation
    R, S = polar_ref(F)
    hp = hk + [polar_hook]
    trS = tr(S) - 3
    FR = arr(F - R)
    nn = ZERO
    for x in FR.ravel():
        nn = nn + x * x
    W = world(r)
    f = W.fn(ME + 'COR.energy_density')
    with r.section('COR energy', f):
        r.eq('COR energy density is the energy of the model', scal(W, W.call(f, A(W, F), lam, mu)), mu * nn + lam * trS * trS / 2, f, hooks=hp)
    W = world(r)
    f = W.fn(ME + 'COR.pk1_stress')
    with r.section('COR stress', f):
        P = cells(W, W.call(f, A(W, F), lam, mu))
        for i in range(3):
            for j in range(3):
                r.eq('COR stress is the derivative of the energy [%d,%d]' % (i, j), P[i, j], lam * trS * R[i, j] + 2 * mu * FR[i, j], f, hooks=hp)
    W = world(r)
    f = W.fn(ME + 'right_cauchy_strain_tensor')
    with r.section('right Cauchy', f):
        eqv(r, 'right Cauchy strain', W, W.call(f, A(W, F)), C, f)
    f = W.fn(ME + 'green_strain_tensor')
    with r.section('Green strain', f):
        eqv(r, 'Green strain', W, W.call(f, A(W, F)), Eg, f)
    W = world(r)
    f = W.fn(ME + 'cauchy_stress_tensor')
    with r.section('Cauchy stress', f):
        F2 = np.stack([F, V('G', (3, 3))])
        S2 = np.stack([V('S', (3, 3)), V('Z', (3, 3))])
        want = np.stack([arr(matmul(matmul(F2[k], S2[k]), F2[k].T) / det3(F2[k])) for k in range(2)])
        eqv(r, 'Cauchy stress F S F^T / det F', W, W.call(f, A(W, F2), A(W, S2)), want, f, hooks=hk + [near_identity('G')])
    W = world(r)
    E, nu = tm.sym('E'), tm.sym('nu')
    hk2 = [pos_hook('E'), range_hook('nu', 0.01, 0.49)]
    f = W.fn(ME + 'first_lame')
    with r.section('first Lamé', f):
        r.eq('first Lamé parameter', W.call(f, E, nu), nu * E / ((1 + nu) * (1 - 2 * nu)), f, hooks=hk2)
    f = W.fn(ME + 'second_lame')
    with r.section('second Lamé', f):
        r.eq('second Lamé parameter', W.call(f, E, nu), E / (2 * (1 + nu)), f, hooks=hk2)
    f = W.fn(ME + 'create_material_parameters')
    table = {None: (1e6, .3, 1000), 'cartilage': (.69e6, .018, 1000), 'cortical bone': (16.16e9, .33, 1600), 'cancellous bone': (452e6, .3, 1600),
             'rubber': (.01e9, .48, 1050), 'concrete': (30e9, .2, 2320), 'copper': (125e9, .35, 8900), 'steel': (210e9, .31, 7800),
             'aluminium': (72e9, .34, 2700), 'glass': (50e9, .18, 2190), 'unheard of': (1e6, .3, 1000), 'STEEL': (210e9, .31, 7800)}
    for nm, want in table.items():
        W = world(r)
        with r.section('material %s' % nm, f):
            got = W.ip.np.unpack(W.call(f, nm), 3, W.st)
            for k, w in enumerate(want):
                r.eq('material %s %s' % (nm, ('Young modulus', 'Poisson ratio', 'density')[k]), lift(got[k]), lift(w), f)


def scal(W, v):
    if isinstance(v, T):
        return v
    return W.ip.np.num(v, W.st)


def near_identity(name):
    """interpretations in which the named 3x3 matrix is a moderate deformation"""
    pre = name + '['

    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith(pre):
            ij = eval(a.args[0][len(name):])
            return (1.0 if ij[0] == ij[1] else 0.0) + 0.3 * max(-1.0, min(1.0, s.basic(a)))
        return None
    return hk


def polar_ref(F):
    """rotation and stretch of a matrix of terms as named quantities (see polar_hook)"""
    key = tuple(F.ravel())
    R = arr([[tm.app('polarR', i, j, *key) for j in range(3)] for i in range(3)])
    return R, matmul(R.T, F)


def polar_hook(s, a):
    if a.op != 'polarR':
        return None
    M = np.array([s.T(x) for x in a.args[2:]]).reshape(3, 3)
    u, w, v = np.linalg.svd(M)
    if np.linalg.det(M) < 0.05 or w[2] < 0.05:
        raise tm.Undef
    return float((u @ v)[int(lift(a.args[0]).const()), int(lift(a.args[1]).const())])


# ---------------------------------------------------------------- a small world of soft bodies
TETS = [[[0, 1, 2, 3], [4, 2, 1, 3]], [[3, 1, 4, 0]], [[0, 2, 1, 4], [3, 1, 2, 4], [5, 1, 3, 4]]]
NODES = [5, 5, 6]


def ints(W, a):
    return A(W, arr(a))


class Scene:
    """an engine with bodies of known connectivity and arbitrary coordinates, velocities and properties"""

    def __init__(self, W, which=(0, 2), fixed=(), names='abc'):
        self.W = W
        self.E = W.new(SB + 'types.Engine')
        self.b, self.off, self.n = [], [], 0
        bodies = W.get(self.E, 'bodies')
        for k in which:
            nm = names[k]
            key = {'a': 'q', 'b': 'm', 'c': 'k'}[nm]        # (not in the order of the bodies)
            o = W.new(SB + 'types.SoftBody', key)
            N, Tk = NODES[k], np.array(TETS[k])
            K = len(Tk)
            put = lambda a, v: W.ip.setattr(o, a, v, W.st)
            put('idx', lift(len(self.b)))
            put('offset', lift(self.n))
            put('T', ints(W, Tk))
            put('surface', ints(W, [[t[(j + 1) % 4], t[(j + 2) % 4], t[(j + 3) % 4]] for t in Tk.tolist() for j in range(3)]))
            for a, sh in (('x0', (N, 3)), ('x', (N, 3)), ('u', (N, 3)), ('vol0', (K,)), ('gradN0', (K, 3, 4)), ('invD0', (K, 3, 3)), ('gravity', (3,)), ('M_array', (K, 4, 4, 3, 3)), ('C_array', (K, 4, 4, 3, 3))):
                put(a, A(W, V('%s.%s' % (nm, a), sh)))
            md = W.new(SB + 'types.MaterialDescription')
            for a in ('E', 'nu', 'rho', 'c'):
                W.ip.setattr(md, a, tm.sym('%s.%s' % (nm, a)), W.st)
            W.ip.setattr(md, 'name', 'mat' + nm, W.st)
            put('material_description', md)
            if k in fixed:
                put('is_fixed', TRUE)
            W.ip.np.setitem(bodies, key, o, W.st)
            self.b.append(o)
            self.off.append(self.n)
            self.n += N
        W.ip.setattr(self.E, 'number_of_nodes', lift(self.n), W.st)
        self.which = which
        self.nm = [names[k] for k in which]

    def c(self, k, a):
        return cells(self.W, self.W.get(self.b[k], a))

    def put(self, k, a, v):
        self.W.ip.setattr(self.b[k], a, v, self.W.st)

    def T(self, k):
        return TETS[self.which[k]]

    def N(self, k):
        return NODES[self.which[k]]

    def sl(self, k):
        return slice(self.off[k], self.off[k] + self.N(k))


def tet_hook(*names):
    """interpretations in which the coordinates of the bodies form well shaped tetrahedra"""
    base = {}
    # five/six points for which all the test tetrahedra are positively oriented
    P = {'a': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1.1, 1.2, .9]],
         'b': [[1, 0, 0], [0, 1, 0], [9, 9, 9], [0, 0, 0], [0, 0, 1]],
         'c': [[-.2, .1, -1.], [1, 0, 0], [0, 1, 0], [1.2, 1.1, -.3], [.2, .3, .9], [2.1, .2, .8]]}

    def hk(s, a):
        if a.op == 'sym' and isinstance(a.args[0], str) and '.x' in a.args[0] and '[' in a.args[0]:
            nm, ix = a.args[0].split('[', 1)
            b, at = nm.split('.', 1)
            if at in ('x', 'x0') and b in P:
                i, j = (int(q) for q in ix[:-1].split(','))
                return P[b][i][j] + 0.12 * max(-1.0, min(1.0, s.basic(a)))
        return None
    return hk


def vol_of(p):
    return det3(arr([p[1] - p[0], p[2] - p[0], p[3] - p[0]])) / 6


def grads(p):
    """gradients of the four barycentric coordinates of a tetrahedron, each divided by the edge matrix determinant"""
    d = det3(arr([p[1] - p[0], p[2] - p[0], p[3] - p[0]]))
    g1, g2, g3 = cross(p[2] - p[0], p[3] - p[0]), cross(p[3] - p[0], p[1] - p[0]), cross(p[1] - p[0], p[2] - p[0])
    return [(-(g1 + g2 + g3)) / d, g1 / d, g2 / d, g3 / d]


def X(nm, at, N):
    return V('%s.%s' % (nm, at), (N, 3))


def S02(r):
    """the elastic forces are minus the derivative of the elastic energy; gravity, traction and damping forces are the nodal loads of the documented densities"""
    hk = [tet_hook()]
    for k, nm in enumerate('abc'):
        N, Tk = NODES[k], TETS[k]
        W = world(r)
        x = X(nm, 'x', N)
        f = W.fn(NA + 'compute_outward_face_vectors')
        with r.section('face vectors of mesh ' + nm, f):
            got = W.call(f, A(W, x), ints(W, Tk))
            want = np.empty((len(Tk), 3, 4), dtype=object)
            for e, t in enumerate(Tk):
                p = [x[i] for i in t]
                for n, g in enumerate(grads(p)):
                    want[e, :, n] = -g * vol_of(p)
            eqv(r, 'face vectors of mesh %s are minus volume times shape function gradients' % nm, W, got, want, f, hooks=hk)
        W = world(r)
        f = W.fn(NA + 'compute_deformation_gradient')
        with r.section('deformation gradient of mesh ' + nm, f):
            x0 = X(nm, 'x0', N)
            inv = W.call(NA + 'compute_inverse_D0', A(W, x0), ints(W, Tk))
            F = cells(W, W.call(f, A(W, x), ints(W, Tk), inv))
            want = np.empty((len(Tk), 3, 3), dtype=object)
            for e, t in enumerate(Tk):
                g = grads([x0[i] for i in t])
                for i in range(3):
                    for j in range(3):
                        want[e, i, j] = sum((x[t[n], i] * g[n][j] for n in range(4)), ZERO)
            eqv(r, 'deformation gradient of mesh %s maps material edges to spatial edges' % nm, W, F, want, f, hooks=hk)
        for cm in ('SVK', 'SNH'):
            W = world(r)
            f = W.fn(NA + 'compute_elastic_forces')
            with r.section('elastic forces of mesh %s %s' % (nm, cm), f):
                lam, mu = tm.sym('lambda'), tm.sym('mu')
                x0 = X(nm, 'x0', N)
                inv = W.call(NA + 'compute_inverse_D0', A(W, x0), ints(W, Tk))
                gN = W.call(NA + 'compute_outward_face_vectors', A(W, x0), ints(W, Tk))
                F = W.call(NA + 'compute_deformation_gradient', A(W, x), ints(W, Tk), inv)
                P = W.fn(ME + cm + '.pk1_stress')
                if isinstance(P, str):
                    raise Unsupported('no stress')
                got = W.call(f, A(W, x), ints(W, Tk), gN, F, lam, mu, P)
                want = np.empty((N, 3), dtype=object)
                want[...] = ZERO
                for t in Tk:
                    p0 = [x0[i] for i in t]
                    g = grads(p0)
                    Fs = arr([[sum((x[t[n], i] * g[n][j] for n in range(4)), ZERO) for j in range(3)] for i in range(3)])
                    Pr = stress(cm, Fs, lam, mu)
                    for n in range(4):
                        want[t[n]] = want[t[n]] - matvec(Pr, g[n]) * vol_of(p0)
                eqv(r, 'elastic force of mesh %s is minus the energy derivative (%s)' % (nm, cm), W, got, want, f, hooks=hk + [pos_hook('lambda', 'mu')], samples=4)
        W = world(r)
        f = W.fn(NA + 'compute_elastic_energy')
        with r.section('elastic energy of mesh ' + nm, f):
            K = len(Tk)
            F, vol = V('F', (K, 3, 3)), V('vol', K)
            lam, mu = tm.sym('lambda'), tm.sym('mu')
            psi = lambda ip, st, a, kw: tm.app('psi', *[c for c in ip.cells(a[0], st).ravel()], a[1], a[2])
            got = W.call(f, A(W, vol), A(W, F), lam, mu, Native(psi))
            want = sum((vol[e] * tm.app('psi', *F[e].ravel(), lam, mu) for e in range(K)), ZERO)
            r.eq('elastic energy of mesh %s sums the element energies' % nm, scal(W, got), want, f)
        W = world(r)
        f = W.fn(NA + 'compute_gravity_forces')
        with r.section('gravity forces of mesh ' + nm, f):
            vol, g, rho = V('vol', len(Tk)), V('g', 3), tm.sym('rho')
            got = W.call(f, lift(N), ints(W, Tk), A(W, vol), rho, A(W, g))
            want = np.empty((N, 3), dtype=object)
            want[...] = ZERO
            for e, t in enumerate(Tk):
                for n in t:
                    want[n] = want[n] + g * (rho * vol[e] / 4)
            eqv(r, 'gravity of mesh %s gives each corner a quarter of the element weight' % nm, W, got, want, f)
        W = world(r)
        f = W.fn(NA + 'compute_damping_forces')
        with r.section('damping forces of mesh ' + nm, f):
            C, u = V('C', (len(Tk), 4, 4, 3, 3)), V('u', (N, 3))
            got = W.call(f, ints(W, Tk), A(W, C), A(W, u))
            want = np.empty((N, 3), dtype=object)
            want[...] = ZERO
            for e, t in enumerate(Tk):
                for i in range(4):
                    for j in range(4):
                        want[t[i]] = want[t[i]] - matvec(C[e, i, j], u[t[j]])
            eqv(r, 'damping of mesh %s is minus the damping matrix times the velocities' % nm, W, got, want, f)
    W = world(r)
    f = W.fn(NA + 'compute_traction_forces')
    with r.section('traction forces', f):
        x = V('x', (6, 3))
        cs = [(0, 1, 2), (2, 1, 4), (5, 0, 2)]
        loads = [V('load%d' % k, 3) for k in range(3)]
        conds = W.ip.lst([W.new(SB + 'types.TractionCondition', *[lift(i) for i in c], A(W, l)) for c, l in zip(cs, loads)], W.st)
        got = W.call(f, A(W, x), conds)
        want = np.empty((6, 3), dtype=object)
        want[...] = ZERO
        for c, l in zip(cs, loads):
            area = norm(cross(x[c[1]] - x[c[0]], x[c[2]] - x[c[0]])) / 2
            for n in c:
                want[n] = want[n] + l * (area / 3)
        eqv(r, 'each corner of a loaded triangle gets an equal share of area times load', W, got, want, f)
        x = W.call(f, A(W, x), W.ip.lst([], W.st))
        eqv(r, 'no traction without conditions', W, x, arr([[0] * 3] * 6), f)


def stress(cm, F, lam, mu):
    C = matmul(F.T, F)
    if cm == 'SVK':
        Eg = arr((C - eye(3)) / 2)
        Sp = arr(eye(3) * (lam * tr(Eg)) + Eg * (2 * mu))
        return matmul(F, Sp)
    m_, l_ = mu * 4 / 3, lam + mu * 5 / 6
    al = 1 + m_ / l_ - m_ / (4 * l_)
    J = det3(F)
    cof = arr(inv3(F).T * J)
    return arr(F * (m_ * (1 - 1 / (tr(C) + 1))) + cof * (l_ * (J - al)))


def zeros(*sh):
    a = np.empty(sh, dtype=object)
    a[...] = ZERO
    return a


def S03(r):
    """element mass and damping arrays hold the documented lumped or consistent matrices, and assembled, multiplied and scattered they act as the same global matrix"""
    Tk = TETS[2]
    K, N = len(Tk), NODES[2]
    vol = V('vol', K)
    for nm, co in (('mass', 'rho'), ('damping', 'c')):
        for lump, tag in ((TRUE, 'lumped'), (FALSE, 'consistent')):
            W = world(r)
            f = W.fn(NA + 'compute_%s_element_array' % nm)
            with r.section('%s %s' % (tag, nm), f):
                k = tm.sym(co)
                got = W.call(f, k, A(W, vol), ints(W, Tk), lump)
                want = zeros(K, 4, 4, 3, 3)
                for e in range(K):
                    for i in range(4):
                        for j in range(4):
                            w = (ONE / 4 if i == j else ZERO) if lump is TRUE else (ONE / 10 if i == j else ONE / 20)
                            for q in range(3):
                                want[e, i, j, q, q] = k * vol[e] * w
                eqv(r, '%s element %s matrix' % (tag, nm), W, got, want, f)
    Aa = V('A', (K, 4, 4, 3, 3))
    dense = zeros(3 * N, 3 * N)
    for e, t in enumerate(Tk):
        for i in range(4):
            for j in range(4):
                for p in range(3):
                    for q in range(3):
                        dense[3 * t[i] + p, 3 * t[j] + q] = dense[3 * t[i] + p, 3 * t[j] + q] + Aa[e, i, j, p, q]
    W = world(r)
    f = W.fn(EA + 'prod_mat_vec')
    for shape in ((3 * N,), (N, 3)):
        with r.section('product %s' % (shape,), f):
            x = V('x', shape)
            arg, a2 = A(W, x), A(W, Aa)
            got = W.call(f, ints(W, Tk), a2, arg)
            eqv(r, 'element array times vector of shape %s' % (shape,), W, got, matvec(dense, x.ravel()).reshape(shape), f)
            eqv(r, 'the product leaves its vector alone', W, arg, x, f)
            eqv(r, 'the product leaves the element array alone', W, a2, Aa, f)
    for q, extra in (('assembly_coo', ()), ('assembly_csr', (lift(N),))):
        W = world(r)
        f = W.fn(EA + q)
        with r.section(q, f):
            a2 = A(W, Aa)
            out = W.call(f, *extra, ints(W, Tk), a2)
            if q == 'assembly_coo':
                row, col, data = (cells(W, v) for v in W.ip.np.unpack(out, 3, W.st))
                m = W.ip.np.dense_triplets(A(W, data), A(W, row), A(W, col), (lift(3 * N), lift(3 * N)), W.st)
            else:
                m = out
            got = W.ip.np.cells_of(m, W.st)
            if got is None:
                raise Unsupported('not a known sparse matrix')
            eqv(r, '%s assembles the element matrices' % q, W, A(W, got), dense, f)
            eqv(r, '%s leaves the element array alone' % q, W, a2, Aa, f)
    for which in ((0, 2), (2, 1, 0)):
        W = world(r)
        f = W.fn(SO + 'compute_mass_matrix')
        with r.section('global mass matrix', f):
            sc = Scene(W, which)
            m = W.call(f, sc.E, W.dct(), profiling())
            got = W.ip.np.cells_of(m, W.st)
            if got is None:
                raise Unsupported('not a known sparse matrix')
            want = zeros(3 * sc.n, 3 * sc.n)
            for k in range(len(which)):
                M = V('%s.M_array' % sc.nm[k], (len(sc.T(k)), 4, 4, 3, 3))
                for e, t in enumerate(sc.T(k)):
                    for i in range(4):
                        for j in range(4):
                            for p in range(3):
                                for q in range(3):
                                    a, b = 3 * (t[i] + sc.off[k]) + p, 3 * (t[j] + sc.off[k]) + q
                                    want[a, b] = want[a, b] + M[e, i, j, p, q]
            eqv(r, 'global mass matrix of bodies %s' % ','.join(sc.nm), W, A(W, got), want, f)
    W = world(r)
    f = W.fn(SO + 'compute_inverse_mass_matrix')
    with r.section('inverse mass matrix', f):
        # lumped: every node that belongs to an element gets the reciprocal of its share
        sc = Scene(W, (2,))
        rho, vol = tm.sym('c.rho'), V('c.vol0', 3)
        sc.put(0, 'M_array', W.call(NA + 'compute_mass_element_array', rho, A(W, vol), ints(W, sc.T(0)), TRUE))
        m = W.call(f, sc.E, W.dct(), profiling())
        got = W.ip.np.cells_of(m, W.st)
        if got is None:
            raise Unsupported('not a known sparse matrix')
        mass = zeros(sc.n)
        for e, t in enumerate(sc.T(0)):
            for n in t:
                mass[n] = mass[n] + rho * vol[e] / 4
        want = zeros(3 * sc.n, 3 * sc.n)
        for i in range(3 * sc.n):
            want[i, i] = 1 / mass[i // 3]
        eqv(r, 'inverse of the lumped mass matrix', W, A(W, got), want, f, hooks=[pos_hook('c.rho', *['c.vol0[%d]' % i for i in range(3)], *['c.vol0(%d,)' % i for i in range(3)])])
    W = world(r)
    f = W.fn(NA + 'apply_dirichlet_conditions')
    with r.section('linear system with Dirichlet conditions', f):
        n = 4
        Am, b = V('A', (3 * n, 3 * n)), V('b', 3 * n)
        v1, v2 = V('v1', 3), V('v2', 3)
        conds = W.ip.lst([W.new(SB + 'types.DirichletCondition', lift(i), A(W, v)) for i, v in ((2, v1), (0, v2))], W.st)
        a_, b_ = A(W, Am), A(W, b)
        W.call(f, conds, a_, b_)
        wA, wb = Am.copy(), b.copy()
        for i, v in ((2, v1), (0, v2)):
            wb[3 * i:3 * i + 3] = v
            wA[3 * i:3 * i + 3, :] = ZERO
            for q in range(3):
                wA[3 * i + q, 3 * i + q] = ONE
        eqv(r, 'rows of constrained nodes become the identity', W, a_, wA, f)
        eqv(r, 'right-hand side of constrained nodes is the prescribed value', W, b_, wb, f)


SOLVE = 'rainbow.simulators.proximal_contact.prox_solvers.solve'
SOLVE_ARGS = ['J', 'WJT', 'b', 'mu', 'friction_solver', 'engine', 'stats', 'debug_on', 'prefix', 'scheme']
OPS = 'rainbow.simulators.proximal_contact.proximal_operators.'
PAIRS = [(0, 1, 0, 2), (1, 0, 1, 0), (1, 1, 0, 2)]      # body A, body B, tetrahedron of A, tetrahedron of B


class Contacts:
    def __init__(self, sc, which=(0, 1)):
        W = sc.W
        self.objs, self.n, self.wA, self.wB, self.g, self.pairs = [], [], [], [], [], [PAIRS[k] for k in which]
        for k in which:
            a, b, ta, tb = PAIRS[k]
            n, oA, oB, p, g = V('n%d' % k, 3), V('oA%d' % k, 4), V('oB%d' % k, 4), V('p%d' % k, 3), tm.sym('g%d' % k)
            W.ip.models['rainbow.simulators.prox_soft_bodies.types.V3.norm'] = None
            W.ip.models.pop('rainbow.simulators.prox_soft_bodies.types.V3.norm')
            o = W.new(SB + 'types.ContactPoint', sc.b[a], sc.b[b], lift(ta), lift(tb), A(W, oA), A(W, oB), A(W, p), A(W, n), g)
            self.objs.append(o)
            self.n.append(n)
            self.wA.append(oA)
            self.wB.append(oB)
            self.g.append(g)
        W.st.pc = TRUE
        self.sc = sc

    def put(self):
        W = self.sc.W
        W.ip.setattr(self.sc.E, 'contact_points', W.ip.lst(list(self.objs), W.st), W.st)

    def jacobian(self):
        sc = self.sc
        J = zeros(4 * len(self.objs), 3 * sc.n)
        for k, (a, b, ta, tb) in enumerate(self.pairs):
            t1, t2, nn = tangents(self.n[k])
            for i, d in enumerate((nn, t1, t2)):
                for bd, te, w, sg in ((a, ta, self.wA[k], -1), (b, tb, self.wB[k], 1)):
                    for c in range(4):
                        col = 3 * (sc.off[bd] + sc.T(bd)[te][c])
                        for q in range(3):
                            J[4 * k + i, col + q] = J[4 * k + i, col + q] + sg * w[c] * d[q]
        return J


def cwhich():
    return (0, 2)


CH = [unit_hook('n0', 'n1', 'n2'), ons_hook]


def sworld(r, **kw):
    W = world(r, **kw)

    def frame(ip, st, args, kw):
        n = ip.cells(args[0], st)
        return tuple(ip.arr(x, st) for x in tangents(n))
    W.ip.models['rainbow.math.vector3.make_orthonormal_vectors'] = frame
    return W


def solver_model(W, out, sol='sol'):
    """the contact solver: records what it is asked to solve and answers with arbitrary impulses"""
    def solve(ip, st, args, kw):
        a = dict(zip(SOLVE_ARGS, args))
        a.update(kw)
        a['pc'] = st.pc
        for k in ('b', 'mu'):
            a[k + '_'] = ip.cells(a[k], st).copy()
        a['J_'], a['WJT_'] = ip.np.cells_of(a['J'], st), ip.np.cells_of(a['WJT'], st)
        out.append(a)
        return (ip.arr(V(sol + str(len(out)), len(a['b_'])), st), a['stats'])
    W.ip.models[SOLVE] = solve


def opname(v):
    return getattr(v, 'qual', str(v)).split('.')[-1]


def S04(r):
    """contact rows measure the relative velocity of the interpolated contact points; post-stabilisation removes only penetrations and changes only positions"""
    for cs in ((0, 1), (2, 0), ()):
        W = sworld(r)
        f = W.fn(SO + 'compute_jacobian_matrix')
        with r.section('contact Jacobian', f):
            sc = Scene(W)
            ct = Contacts(sc, cs)
            ct.put()
            m = W.call(f, sc.E, W.dct(), profiling())
            got = W.ip.np.cells_of(m, W.st)
            if got is None:
                raise Unsupported('not a known sparse matrix')
            eqv(r, 'contact Jacobian of contacts %s' % (cs,), W, A(W, got), ct.jacobian() if cs else zeros(0, 3 * sc.n), f, hooks=CH)
    W = sworld(r)
    f = W.fn(SO + 'get_friction_coefficient_vector')
    with r.section('friction coefficients', f):
        sc = Scene(W)
        ct = Contacts(sc, (0, 1, 2))
        ct.put()
        lib = W.get(sc.E, 'surfaces_interactions')
        st = W.get(lib, 'storage')
        for key, c in ((('mata', 'matc'), 'mac'), (('default', 'default'), 'mdd')):
            o = W.new(SB + 'types.SurfacesInteraction')
            W.ip.setattr(o, 'mu', A(W, V(c, 3)), W.st)
            W.ip.np.setitem(st, key, o, W.st)
        got = W.call(f, sc.E)
        eqv(r, 'friction coefficient of each contact is that of its two materials', W, got, arr([tm.sym('mac[0]'), tm.sym('mac[0]'), tm.sym('mdd[0]')]), f)
    f = W.fn(SO + 'get_largest_penetration_error')
    with r.section('penetration error', f):
        got = W.call(f, sc.E)
        r.eq('largest penetration is the deepest one and never negative', got, tm.fmax(tm.fmax(ZERO, -ct.g[0]), tm.fmax(-ct.g[1], -ct.g[2])), f, samples=60)
    W = sworld(r)
    f = W.fn(SO + 'apply_post_stabilization')
    with r.section('post-stabilisation', f):
        sc = Scene(W)
        dirichlet(sc, 0, [(4, V('d4', 3)), (1, V('d1', 3))])
        ct = Contacts(sc, (0, 1))
        ct.put()
        E = sc.E
        for k in range(2):
            sc.put(k, 'x', A(W, sc.c(k, 'x')))
        P = W.get(E, 'params')
        mg = tm.sym('min_gap')
        W.ip.setattr(P, 'min_gap_value', mg, W.st)
        Jc, Wc = V('J', (8, 3 * sc.n)), V('WJT', (3 * sc.n, 8))
        J, WJT = W.ip.np.dense(Jc, W.st), W.ip.np.dense(Wc, W.st)
        calls = []
        solver_model(W, calls)
        before = {(k, a): sc.c(k, a).copy() for k in range(2) for a in 'xu'}
        W.call(f, J, WJT, E, W.dct(), profiling())
        hk = [pos_hook('min_gap')]
        deep = [tm.lt(g, -mg) for g in ct.g]
        some = deep[0] | deep[1]
        if r.fact('post-stabilisation solves one contact problem', len(calls) == 1, f, '%d problems' % len(calls)):
            a = calls[0]
            r.eq('post-stabilisation acts exactly when a contact is too deep', a['pc'], some, f, hooks=hk)
            want = zeros(8)
            for k in range(2):
                want[4 * k] = tm.ite(deep[k], ct.g[k], ZERO)
            for i in range(8):
                r.eq('gap of the stabilisation problem[%d]' % i, a['b_'][i] if i < len(a['b_']) else ZERO, want[i], f, hooks=hk, care=some, samples=40)
            eqv(r, 'stabilisation has no friction', W, A(W, a['mu_']), zeros(2), f)
            r.fact('stabilisation impulses are only kept from pulling', opname(a['friction_solver']) == 'prox_origin', f, 'operator %s' % opname(a['friction_solver']))
            r.fact('stabilisation uses the contact Jacobian', a['J_'] is not None and (a['J_'] == Jc).all() and a['WJT_'] is not None and (a['WJT_'] == Wc).all(), f, 'other matrices')
            sol = V('sol1', 8)
            dx = matvec(Wc, sol).reshape(-1, 3)
            for k in range(2):
                got = sc.c(k, 'x')
                for n in range(sc.N(k)):
                    for q in range(3):
                        d = ZERO if k == 0 and n in (1, 4) else dx[sc.off[k] + n, q]
                        r.eq('position of node %d of body %s after stabilisation[%d]' % (n, sc.nm[k], q), got[n, q], before[k, 'x'][n, q] + d, f, care=some, hooks=hk)
                        r.eq('no stabilisation without a deep contact, node %d of body %s[%d]' % (n, sc.nm[k], q), got[n, q], before[k, 'x'][n, q], f, care=~some, hooks=hk)
                eqv(r, 'stabilisation keeps the velocities of body %s' % sc.nm[k], W, W.get(sc.b[k], 'u'), before[k, 'u'], f)


def dirichlet(sc, k, conds):
    W = sc.W
    sc.put(k, 'dirichlet_conditions', W.ip.lst([W.new(SB + 'types.DirichletCondition', lift(i), A(W, v)) for i, v in conds], W.st))


def soft_forces(sc, k, x, u, traction=()):
    """sum of the documented nodal forces of body k in terms of its stored properties"""
    nm, Tk, N = sc.nm[k], sc.T(k), sc.N(k)
    rho, K = tm.sym(nm + '.rho'), len(Tk)
    E, nu = tm.sym(nm + '.E'), tm.sym(nm + '.nu')
    lam, mu = nu * E / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    vol, gN, inv, g, C = (V('%s.%s' % (nm, a), sh) for a, sh in (('vol0', (K,)), ('gradN0', (K, 3, 4)), ('invD0', (K, 3, 3)), ('gravity', (3,)), ('C_array', (K, 4, 4, 3, 3))))
    F = zeros(N, 3)
    for e, t in enumerate(Tk):
        p = [x[i] for i in t]
        D = arr([[p[j + 1][i] - p[0][i] for j in range(3)] for i in range(3)])
        Fe = matmul(D, inv[e])
        P = arr([[tm.app('P' + nm, i, j, *Fe.ravel(), lam, mu) for j in range(3)] for i in range(3)])
        for n in range(4):
            F[t[n]] = F[t[n]] + g * (rho * vol[e] / 4) + matvec(P, gN[e, :, n])
            for j in range(4):
                F[t[n]] = F[t[n]] - matvec(C[e, n, j], u[t[j]])
    for (a, b, c), l in traction:
        ar = norm(cross(x[b] - x[a], x[c] - x[a])) / 2
        for n in (a, b, c):
            F[n] = F[n] + l * (ar / 3)
    return F


def stress_model(sc, k):
    nm = sc.nm[k]

    def P(ip, st, args, kw):
        Fc = ip.cells(args[0], st)
        return ip.arr(arr([[tm.app('P' + nm, i, j, *Fc.ravel(), ip.np.num(args[1], st), ip.np.num(args[2], st)) for j in range(3)] for i in range(3)]), st)

    def psi(ip, st, args, kw):
        return tm.app('psi' + nm, *ip.cells(args[0], st).ravel(), ip.np.num(args[1], st), ip.np.num(args[2], st))
    sc.W.ip.setattr(sc.W.get(sc.b[k], 'material_description'), 'constitutive_model', NObj('cm', {'pk1_stress': Native(P), 'energy_density': Native(psi)}, TRUE), sc.W.st)


def S05(r):
    """a step is semi-implicit Euler under the body forces and contact impulses; constrained nodes sit at their values, fixed bodies stay"""
    dt = tm.sym('dt')
    for tag, which, fixed, dirs, cs in (('free', (0, 2), (), {}, ()), ('constrained', (0, 2), (), {0: [4, 1], 1: [0]}, ()), ('fixed', (2, 0), (0,), {0: [3]}, ()),
                                        ('contact', (0, 2), (), {1: [2]}, (0, 1)), ('contact with a fixed body', (0, 2), (2,), {0: [0]}, (1,))):
        W = sworld(r)
        f = W.fn(SO + 'SemiImplicitStepper.step')
        with r.section('step (%s)' % tag, f, total=True):
            sc = Scene(W, which, fixed)
            E = sc.E
            lim = {}
            for k, ns in dirs.items():
                cond = [(n, V('d%d_%d' % (k, n), 3)) for n in ns]
                lim[k] = dict(cond)
                dirichlet(sc, k, cond)
            tracts = [((0, 2, 3), V('load0', 3)), ((1, 3, 2), V('load1', 3))]
            sc.put(1, 'traction_conditions', W.ip.lst([W.new(SB + 'types.TractionCondition', *[lift(i) for i in c], A(W, l)) for c, l in tracts], W.st))
            for k in range(2):
                stress_model(sc, k)
            n3 = 3 * sc.n
            Wc = zeros(n3, n3)
            for i in range(n3):
                Wc[i, i] = tm.sym('W[%d,%d]' % (i, i))
                j = i + 1 if i % 2 == 0 else i - 1
                if j < n3:
                    Wc[i, j] = tm.sym('W[%d,%d]' % (i, j))
            ct = Contacts(sc, cs)
            stp = W.ip.sym_obj(SO + 'SemiImplicitStepper', ('root', 'stepper'), W.st)
            W.ip.setattr(stp, 'W', W.ip.np.dense(Wc, W.st), W.st)
            W.ip.setattr(stp, 'log', W.ip.lst([], W.st), W.st)
            calls = []
            solver_model(W, calls)

            def detect(ip, st, args, kw):
                ip.setattr(args[0] if args else kw['engine'], 'contact_points', ip.lst(list(ct.objs), st), st)
                return args[1] if len(args) > 1 else kw['stats']
            W.ip.models[CDT + 'run_collision_detection'] = detect
            x0 = [sc.c(k, 'x').copy() for k in range(2)]
            u0 = [sc.c(k, 'u').copy() for k in range(2)]
            ts = W.get(W.get(E, 'params'), 'time_stamp')
            W.call(f, stp, dt, E, profiling())

            def bcu(u):
                u = u.copy()
                for k in range(2):
                    if sc.which[k] in fixed:
                        u[sc.sl(k)] = ZERO
                    for n in lim.get(k, ()):
                        u[sc.off[k] + n] = ZERO
                return u

            def bcx(x):
                x = x.copy()
                for k in range(2):
                    for n, v in lim.get(k, {}).items():
                        x[sc.off[k] + n] = v
                return x
            xs = bcx(np.concatenate(x0))
            us = bcu(np.concatenate(u0))
            F = np.concatenate([soft_forces(sc, k, xs[sc.sl(k)], us[sc.sl(k)], tracts if k == 1 else ()) for k in range(2)])
            up = bcu((us.ravel() + matvec(Wc, F.ravel()) * dt).reshape(-1, 3))
            hk = [tet_hook()] + CH + [pos_hook('dt', 'a.E', 'c.E'), range_hook('a.nu', .05, .45), range_hook('c.nu', .05, .45)]
            if cs:
                J = ct.jacobian()
                if not r.fact('a step with contacts solves one contact problem (%s)' % tag, len(calls) == 1, f, '%d problems' % len(calls)):
                    continue
                a = calls[0]
                want = matvec(J, up.ravel())
                for i in range(len(want)):
                    r.eq('contact problem right-hand side (%s)[%d]' % (tag, i), a['b_'][i], want[i], f, hooks=hk, samples=6)
                eqv(r, 'contact problem Jacobian (%s)' % tag, W, A(W, a['J_']), J, f, hooks=hk, samples=6)
                WJ = matmul(Wc, J.T)
                eqv(r, 'contact problem inverse mass times Jacobian (%s)' % tag, W, A(W, a['WJT_']), WJ, f, hooks=hk, samples=6)
                r.fact('contact impulses stay in the friction cone (%s)' % tag, opname(a['friction_solver']) == 'prox_sphere', f, 'operator %s' % opname(a['friction_solver']))
                r.fact('the configured solver is used (%s)' % tag, a.get('scheme') == 'gauss_seidel', f, 'scheme %s' % (a.get('scheme'),))
                eqv(r, 'friction coefficients of the contact problem (%s)' % tag, W, A(W, a['mu_']), arr([1] * len(cs)), f)
                up = (up.ravel() + matvec(WJ, V('sol1', len(want)))).reshape(-1, 3)
            else:
                r.fact('no contact problem without contacts (%s)' % tag, not calls, f, 'a contact problem is solved')
            un = bcu(up)
            xn = bcx(xs + un * dt)
            for k in range(2):
                eqv(r, 'velocity of body %s after a step (%s)' % (sc.nm[k], tag), W, W.get(sc.b[k], 'u'), un[sc.sl(k)], f, hooks=hk, samples=6)
                eqv(r, 'position of body %s after a step (%s)' % (sc.nm[k], tag), W, W.get(sc.b[k], 'x'), xn[sc.sl(k)], f, hooks=hk, samples=6)
            r.eq('the time stamp advances (%s)' % tag, W.get(W.get(E, 'params'), 'time_stamp'), ts + 1, f)


