"""Inverse kinematics: skeleton poses, chains and the derivatives of the objective."""
import itertools
from .lib import *

IK = 'rainbow.simulators.inverse_kinematics.api.'
AXES = {'X': 0, 'Y': 1, 'Z': 2}
CODES = ['XZX', 'XYX', 'YXY', 'YZY', 'ZYZ', 'ZXZ', 'XZY', 'XYZ', 'YXZ', 'YZX', 'ZYX', 'ZXY']
ANG = ('alpha', 'beta', 'gamma')


def axis_rotation(c, th, order=0):
    """rotation matrix about a coordinate axis, or its derivative of first or second order"""
    k = AXES[c]
    i, j = (k + 1) % 3, (k + 2) % 3
    R = eye(3) if not order else arr(np.zeros((3, 3), dtype=int))
    co, si = tm.fun('cos', th), tm.fun('sin', th)
    for _ in range(order):
        co, si = -si, co
    R[i, i], R[i, j], R[j, i], R[j, j] = co, -si, si, co
    return R


def share(c):
    """name the cells, so that products of them are not expanded"""
    out = np.empty(c.shape, dtype=object)
    for ix in np.ndindex(*c.shape):
        x = lift(c[ix])
        out[ix] = tm.let(x) if len(x.m) > 1 else x
    return out


class Skel:
    """a skeleton of known tree shape with arbitrary angles, bone vectors, goals and tool vectors"""

    def __init__(self, W, parents, codes, chains=None):
        self.W, self.par, self.codes = W, parents, codes
        W.ip.maxrec = 12
        self.sk = W.call(IK + 'create_skeleton')
        self.bones = []
        for k, (p, c) in enumerate(zip(parents, codes)):
            a = [tm.sym('%s%d' % (n, k)) for n in ANG] + list(V('t%d' % k, 3)) + [c]
            if p < 0:
                b = W.call(IK + 'create_root', self.sk, *a)
            else:
                b = W.call(IK + 'add_bone', self.sk, lift(p), *a)
            self.bones.append(b)

    def th(self, i):
        return tm.sym('%s%d' % (ANG[i % 3], i // 3))

    def path(self, k):
        out = []
        while k >= 0:
            out.append(k)
            k = self.par[k]
        return out[::-1]

    def leaves(self):
        return [k for k in range(len(self.par)) if k not in self.par]

    def pose(self, k, wrt=(), moved={}):
        """(rotation matrix, origin) of a bone in world coordinates, or their derivative with respect to the given
        joint angles; moved: other values of some joint angles"""
        R, t = share(eye(3)), arr([0, 0, 0])
        left = list(wrt)
        zero = bool(left)
        for b in self.path(k):
            step = matvec(R, V('t%d' % b, 3))
            t = arr(t + step) if not left else t
            for i in range(3):
                j = 3 * b + i
                R = share(matmul(R, axis_rotation(self.codes[b][i], moved.get(j, self.th(j)), wrt.count(j))))
                if j in left:
                    left = [x for x in left if x != j]
                    t = arr([0, 0, 0])
        if left:
            return arr(np.zeros((3, 3), dtype=int)), arr([0, 0, 0])
        return R, share(t)

    def chains(self):
        """chains to the leaves (in index order) with arbitrary goals and tools"""
        W = self.W
        ch = items(W, W.call(IK + 'make_chains', self.sk))
        for n, c in enumerate(ch):
            W.ip.setattr(c, 'goal', A(W, V('goal%d' % n, 3)), W.st)
            W.ip.setattr(c, 'tool', A(W, V('tool%d' % n, 3)), W.st)
        return ch

    def effector(self, n, wrt=(), moved={}):
        R, t = self.pose(self.leaves()[n], list(wrt), moved)
        return share(t + matvec(R, V('tool%d' % n, 3)))

    def objective(self, wrt=(), moved={}):
        """objective, or its derivative with respect to one or two joint angles"""
        f = ZERO
        for n in range(len(self.leaves())):
            d = V('goal%d' % n, 3) - self.effector(n, moved=moved)
            if not wrt:
                f = f + dot(d, d) / 2
            elif len(wrt) == 1:
                f = f - dot(d, self.effector(n, wrt))
            else:
                f = f + dot(self.effector(n, wrt[:1]), self.effector(n, wrt[1:])) - dot(d, self.effector(n, wrt))
        return f

    def keeps(self, r, nm, f, angles=True):
        W = self.W
        for k, b in enumerate(self.bones):
            for i, a in enumerate(ANG):
                r.eq('%s keeps %s of bone %d' % (nm, a, k), W.get(b, a), self.th(3 * k + i), f)
            eqv(r, '%s keeps the bone vector %d' % (nm, k), W, W.get(b, 't'), V('t%d' % k, 3), f)


SHAPES = [('single bone', [-1], ['ZYX']), ('branching', [-1, 0, 1, 0], ['ZYZ', 'XYZ', 'YXY', 'ZXY'])]
HK = []


def K01(r):
    """poses, chains and joint angles of an articulated skeleton"""
    poses(r)
    building(r)
    angles(r)


def angle_samples(s, a):
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith(ANG):
        return 1.3 * s.basic(a)
    return None


def mat_of(q):
    n = dot(q, q)
    return arr([[x / n for x in row] for row in qmat(q)])


def poses(r):
    for code in CODES:
        W = world(r)
        f = W.fn(IK + 'update_skeleton')
        with r.section('pose %s' % code, f, total=True):
            S = Skel(W, [-1], [code])
            W.call(f, S.sk)
            R, t = S.pose(0)
            q = cells(W, W.get(S.bones[0], 'q_wcs'))
            eqv(r, 'orientation of a bone with Euler code %s' % code, W, mat_of(q), R, f)
            r.eq('orientation is a unit quaternion (%s)' % code, dot(q, q), ONE, f)
            for i, a in enumerate(ANG):
                b = S.bones[0]
                want = [ZERO] * 3
                want[AXES[code[i]]] = ONE
                eqv(r, 'axis of %s (%s)' % (a, code), W, W.meth(b, 'get_axis_' + a), want, W.fn('rainbow.simulators.inverse_kinematics.types.Bone.get_axis'))
                eqv(r, 'rotation of %s (%s)' % (a, code), W, mat_of(cells(W, W.meth(b, 'get_rotation_' + a))), axis_rotation(code[i], S.th(i)), W.fn('rainbow.simulators.inverse_kinematics.types.Bone.get_rotation'))
    for nm, par, codes in SHAPES + [('star', [-1, 0, 0, 0], ['XYZ', 'ZYZ', 'YZX', 'XZX']), ('two chains', [-1, 0, 0, 2, 1], ['XYZ', 'ZYZ', 'YZX', 'XZX', 'ZYX'])]:
        W = world(r)
        f = W.fn(IK + 'update_skeleton')
        with r.section('poses %s' % nm, f, total=True):
            S = Skel(W, par, codes)
            ch = S.chains()
            # the pose before the update is irrelevant
            for k, b in enumerate(S.bones):
                W.ip.setattr(b, 'q_wcs', A(W, V('oldq%d' % k, 4)), W.st)
                W.ip.setattr(b, 't_wcs', A(W, V('oldt%d' % k, 3)), W.st)
            W.call(f, S.sk)
            for k, b in enumerate(S.bones):
                R, t = S.pose(k)
                eqv(r, 'orientation of bone %d (%s)' % (k, nm), W, mat_of(cells(W, W.get(b, 'q_wcs'))), R, f, samples=5)
                eqv(r, 'origin of bone %d (%s)' % (k, nm), W, W.get(b, 't_wcs'), t, f, samples=5)
            S.keeps(r, 'updating (%s)' % nm, f)
            g = W.fn(IK + 'get_end_effector')
            r.fact('one chain per leaf (%s)' % nm, len(ch) == len(S.leaves()), W.fn(IK + 'make_chains'), '%d chains' % len(ch))
            for n, (c, leaf) in enumerate(zip(ch, S.leaves())):
                got = [x.const() if isinstance(x, T) else x for x in items(W, W.get(c, 'bones'))]
                r.fact('chain %d is the path from the root to its leaf (%s)' % (n, nm), got == S.path(leaf), W.fn(IK + 'make_chains'), 'chain %s instead of %s' % (got, S.path(leaf)))
                eqv(r, 'end effector %d is the tool point of the leaf (%s)' % (n, nm), W, W.call(g, c, S.sk), S.effector(n), g, samples=5)
            # updating twice changes nothing
            W.call(f, S.sk)
            for k, b in enumerate(S.bones):
                R, t = S.pose(k)
                eqv(r, 'second update keeps the origin of bone %d (%s)' % (k, nm), W, W.get(b, 't_wcs'), t, f, samples=5)


def building(r):
    # exactly the twelve conventions are accepted
    for n, code in enumerate(list(map(''.join, itertools.product('XYZ', repeat=3))) + ['xyz', 'XY', 'XYZX', '']):
        legal = code in CODES
        for name in ('create_root', 'add_bone'):
            W = world(r)
            f = W.fn(IK + name)
            with r.section('%s code %r' % (name, code), f):
                S = Skel(W, [-1] if name == 'add_bone' else [], ['XYZ'])
                a = [tm.sym(x) for x in ('a', 'b', 'c', 'x', 'y', 'z')] + [code]
                n0 = len(S.bones)
                done = True
                try:
                    b = W.call(f, S.sk, *([lift(0)] if name == 'add_bone' else []), *a)
                except Dead:
                    done = False
                r.fact('%s %s the Euler code %r' % (name, 'accepts' if legal else 'rejects', code), done == legal, f, 'accepted' if done else 'rejected')
                if done and legal:
                    r.fact('%s stores the code %r' % (name, code), W.get(b, 'euler_code') == code, f, 'stores %r' % (W.get(b, 'euler_code'),))
    for tag, par, call in (('second root', [-1], 'create_root'), ('root besides bones', [-1, 0], 'create_root'), ('unknown parent', [-1, 0], 2), ('negative parent', [-1, 0], -1), ('no root', [], 0)):
        W = world(r)
        f = W.fn(IK + ('create_root' if call == 'create_root' else 'add_bone'))
        with r.section(tag, f):
            S = Skel(W, par, ['XYZ'] * len(par))
            a = [tm.sym(x) for x in ('a', 'b', 'c', 'x', 'y', 'z')]
            done = True
            try:
                W.call(f, S.sk, *([] if call == 'create_root' else [lift(call)]), *a)
            except Dead:
                done = False
            r.fact('%s is rejected' % tag, not done, f, 'accepted')
    # the new bone
    W = world(r)
    f = W.fn(IK + 'add_bone')
    with r.section('new bones', f, total=True):
        S = Skel(W, [-1, 0, 0, 1], ['XYZ'] * 4)
        got = items(W, W.get(S.sk, 'bones'))
        r.fact('bones are stored in the order of creation', len(got) == 4 and all(W.ip.same(a, b) for a, b in zip(got, S.bones)), f, '%d bones' % len(got))
        kids = {0: [1, 2], 1: [3], 2: [], 3: []}
        for k, b in enumerate(S.bones):
            r.eq('index of bone %d' % k, W.get(b, 'idx'), lift(k), f)
            r.eq('parent of bone %d' % k, W.get(b, 'parent'), lift(S.par[k]), f)
            ch = [x.const() if isinstance(x, T) else x for x in items(W, W.get(b, 'children'))]
            r.fact('children of bone %d' % k, ch == kids[k], f, 'children %s instead of %s' % (ch, kids[k]))
        S.keeps(r, 'creation', f)
        S2 = Skel(W, [-1], ['XYZ'])
        r.fact('skeletons share no bones', len(items(W, W.get(S2.sk, 'bones'))) == 1 and len(items(W, W.get(S.sk, 'bones'))) == 4, f, 'shared list of bones')
        r.fact('bones share no children', not items(W, W.get(S2.bones[0], 'children')), f, 'shared list of children')


def angles(r):
    W = world(r)
    f = W.fn(IK + 'get_joint_angles')
    with r.section('joint angles', f, total=True):
        S = Skel(W, [-1, 0, 0, 1], ['XYZ'] * 4)
        g = W.call(f, S.sk)
        eqv(r, 'joint angles in bone order', W, g, [S.th(i) for i in range(12)], f)
        S.keeps(r, 'reading joint angles', f)
        h = W.fn(IK + 'set_joint_angles')
        W.call(h, S.sk, A(W, V('new', 12)))
        eqv(r, 'set joint angles are read back', W, W.call(f, S.sk), V('new', 12), h)
        for i in range(12):
            r.eq('joint angle %d is stored' % i, W.get(S.bones[i // 3], ANG[i % 3]), tm.sym('new[%d]' % i), h)
    for i in range(12):
        W = world(r)
        f = W.fn(IK + 'set_angle')
        with r.section('angle %d' % i, f, total=True):
            S = Skel(W, [-1, 0, 0, 1], ['XYZ'] * 4)
            g = W.fn(IK + 'get_angle')
            r.eq('get_angle %d' % i, W.call(g, lift(i), S.sk), S.th(i), g)
            W.call(f, lift(i), tm.sym('x'), S.sk)
            eqv(r, 'set_angle changes exactly joint angle %d' % i, W, W.call(IK + 'get_joint_angles', S.sk), [tm.sym('x') if j == i else S.th(j) for j in range(12)], f)


def K02(r):
    """derivatives of the inverse kinematics objective"""
    derivatives(r)
    differences(r)


TREES = [('one bone', [-1], ['ZYX']), ('serial', [-1, 0], ['XYZ', 'YXY']), ('branching', [-1, 0, 0], ['ZYZ', 'ZXY', 'YZX']), ('deep', [-1, 0, 1, 0], ['XZX', 'ZYZ', 'YXZ', 'ZYX'])]


def derivatives(r):
    for nm, par, codes in TREES:
        W = world(r)
        f = W.fn(IK + 'compute_jacobian')
        with r.section('derivatives (%s)' % nm, f, total=True):
            S = Skel(W, par, codes)
            W.call(IK + 'update_skeleton', S.sk)
            ch = W.ip.lst(S.chains(), W.st)
            n, m = 3 * len(par), len(S.leaves())
            th = [S.th(i) for i in range(n)]
            kw = dict(samples=4)
            Jw = arr([[S.effector(k, [j])[i] for j in range(n)] for k in range(m) for i in range(3)])
            J = W.call(f, ch, S.sk)
            eqv(r, 'Jacobian is the derivative of the end effectors (%s)' % nm, W, J, Jw, f, **kw)
            g = W.fn(IK + 'compute_objective')
            E = S.objective()
            r.eq('objective is half the squared distance to the goals (%s)' % nm, W.call(g, ch, S.sk), E, g, **kw)
            # gradient and Hessian with the exact Jacobian
            g = W.fn(IK + 'compute_gradient')
            dE = [S.objective([i]) for i in range(n)]
            eqv(r, 'gradient is the derivative of the objective (%s)' % nm, W, W.call(g, ch, S.sk, A(W, Jw)), dE, g, **kw)
            h = W.fn(IK + 'compute_hessian')
            eqv(r, 'Hessian is the second derivative of the objective (%s)' % nm, W, W.call(h, ch, S.sk, A(W, Jw)), [[S.objective([i, j]) for j in range(n)] for i in range(n)], h, **kw)
            S.keeps(r, 'differentiation (%s)' % nm, f)
            for k, b in enumerate(S.bones):
                R, t = S.pose(k)
                eqv(r, 'differentiation keeps the pose of bone %d (%s)' % (k, nm), W, W.get(b, 't_wcs'), t, f, **kw)


def differences(r):
    """finite differences: the documented quotients, and the skeleton is left as it was"""
    h = tm.sym('h')
    par, codes = [-1, 0], ['XYZ', 'ZYZ']
    for name in ('gradient', 'hessian'):
        W = world(r)
        f = W.fn(IK + 'compute_finite_difference_' + name)
        with r.section('finite difference ' + name, f, total=True):
            S = Skel(W, par, codes)
            W.call(IK + 'update_skeleton', S.sk)
            ch = W.ip.lst(S.chains(), W.st)
            n = 3 * len(par)
            at = [S.th(i) for i in range(n)]
            E = S.objective()

            def ev(moves):
                return S.objective(moved={i: at[i] + d * h for i, d in moves})
            got = W.call(f, ch, S.sk, h)
            kw = dict(samples=4, hooks=[pos_hook('h')])
            if name == 'gradient':
                want = [(ev([(i, 1)]) - ev([(i, -1)])) / (2 * h) for i in range(n)]
            else:
                want = [[(ev([(i, 1)]) - 2 * E + ev([(i, -1)])) / (h * h) if i == j else
                         (ev([(i, 1), (j, 1)]) - ev([(i, 1), (j, -1)]) - ev([(i, -1), (j, 1)]) + ev([(i, -1), (j, -1)])) / (4 * h * h)
                         for j in range(n)] for i in range(n)]
            eqv(r, 'finite difference %s is the central difference quotient' % name, W, got, want, f, **kw)
            S.keeps(r, 'finite difference ' + name, f)
            for k, b in enumerate(S.bones):
                R, t = S.pose(k)
                eqv(r, 'finite difference %s leaves the origin of bone %d' % (name, k), W, W.get(b, 't_wcs'), t, f, **kw)
                eqv(r, 'finite difference %s leaves the orientation of bone %d' % (name, k), W, mat_of(cells(W, W.get(b, 'q_wcs'))), R, f, **kw)
