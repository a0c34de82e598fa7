"""Recording of scenes as USD stages, priority queue, timers."""
from .lib import *

US = 'rainbow.util.USD.'


class Stage:
    """what a program recorded on a USD stage: prims by path, their attributes and transform operations with time samples"""

    def __init__(self, W):
        self.W = W
        self.prims, self.calls, self.exports = {}, [], []
        m = W.ip.models
        m['pxr.Usd.Stage.CreateInMemory'] = lambda ip, st, a, kw: self.stage(a)
        m['pxr.Usd.Stage.CreateNew'] = m['pxr.Usd.Stage.CreateInMemory']
        m['pxr.UsdGeom.Xform.Define'] = lambda ip, st, a, kw: self.prim(a[1], 'Xform')
        m['pxr.UsdGeom.Mesh.Define'] = lambda ip, st, a, kw: self.prim(a[1], 'Mesh')
        m['pxr.UsdGeom.Xformable'] = lambda ip, st, a, kw: self.xformable(a[0])
        m['pxr.Vt.Vec3fArray'] = lambda ip, st, a, kw: a[0]
        m['pxr.Vt.IntArray'] = lambda ip, st, a, kw: a[0]
        m['pxr.Gf.Vec3d'] = lambda ip, st, a, kw: ip.np.n_array([ip.lst(list(a), st)], {}, st) if len(a) > 1 else a[0]
        m['pxr.Gf.Vec3f'] = m['pxr.Gf.Vec3d']
        m['pxr.Gf.Quatd'] = m['pxr.Gf.Vec3d']
        m['pxr.Gf.Quatf'] = m['pxr.Gf.Vec3d']

    def stage(self, a):
        self.made = list(a)
        N = lambda f, n: Native(lambda ip, st, x, kw: f(x, kw), n)
        layer = NObj('layer', {'Export': N(lambda x, kw: self.exports.append(x[0]), 'Export')})
        note = lambda n: N(lambda x, kw: self.calls.append((n, x[0])), n)
        self.st = NObj('stage', {'GetRootLayer': N(lambda x, kw: layer, 'GetRootLayer'), 'SetStartTimeCode': note('start'), 'SetEndTimeCode': note('end'),
                                 'SetFramesPerSecond': note('fps'), 'SetTimeCodesPerSecond': note('tcps')})
        return self.st

    def attr(self, store, name):
        d = store.setdefault(name, [])

        def put(x, kw):
            a = list(x) + [kw[k] for k in ('value',) if k in kw]
            t = kw.get('time', a[1] if len(a) > 1 else None)
            d.append((t, a[0], self.W.ip.cells(a[0], self.now) if isinstance(a[0], (Arr, View)) else None))
            return TRUE

        def get(x, kw):
            t = x[0] if x else kw.get('time')
            for u, v, c in reversed(d):
                if u is t or (u is not None and t is not None and self.W.ip.same(u, t)):
                    return v
            return None
        return NObj(name, {'Set': self.native(put, 'Set'), 'Get': self.native(get, 'Get')})

    def native(self, f, n):
        def g(ip, st, x, kw):
            self.now = st
            return f(x, kw)
        return Native(g, n)

    def prim(self, path, kind):
        if path in self.prims:
            return self.prims[path]['obj']
        p = self.prims[path] = {'kind': kind, 'attrs': {}, 'ops': []}
        A_ = p['attrs']
        d = {}
        for n in ('Points', 'FaceVertexCounts', 'FaceVertexIndices'):
            d['Get%sAttr' % n] = self.native(lambda x, kw, n=n: self.attr(A_, n), 'Get' + n)

            def create(x, kw, n=n):
                at = self.attr(A_, n)
                if x:
                    at.attrs['Set'].f(self.W.ip, self.now, [x[0]], {})
                return at
            d['Create%sAttr' % n] = self.native(create, 'Create' + n)
        d.update(self.xform_attrs(p))
        p['obj'] = NObj('prim', d)
        p['obj'].attrs['.prim'] = p
        return p['obj']

    def xform_attrs(self, p):
        def add(kind):
            def f(x, kw):
                op = {'type': kind or x[0], 'samples': {}}
                o = self.attr(op['samples'], 'v')
                o.attrs['GetOpType'] = self.native(lambda y, kw2: op['type'], 'GetOpType')
                op['obj'] = o
                p['ops'].append(op)
                return o
            return f
        return {'GetOrderedXformOps': self.native(lambda x, kw: self.W.ip.lst([o['obj'] for o in p['ops']], self.now), 'GetOrderedXformOps'), 'AddXformOp': self.native(add(None), 'AddXformOp'),
                'AddTranslateOp': self.native(add(Ext('pxr.UsdGeom.XformOp.TypeTranslate')), 'AddTranslateOp'), 'AddOrientOp': self.native(add(Ext('pxr.UsdGeom.XformOp.TypeOrient')), 'AddOrientOp')}

    def xformable(self, prim):
        return NObj('xformable', self.xform_attrs(prim.attrs['.prim']))


def kind_of(op):
    t = op['type']
    t = getattr(t, 'path', None) or str(t)
    return 'translate' if t.endswith('TypeTranslate') else 'orient' if t.endswith('TypeOrient') else t


def flat(W, v):
    if isinstance(v, (Arr, View)):
        return list(W.ip.cells(v, W.st).ravel())
    out = []
    for x in items(W, v):
        out += flat(W, x) if isinstance(x, (Arr, View, Lst, tuple)) else [lift(x) if isinstance(x, (int, float)) else x]
    return out


def same_flat(r, W, name, got, want, f):
    g = flat(W, got)
    w = list(arr(want).ravel())
    if r.fact('number of ' + name, len(g) == len(w), f, '%d values instead of %d' % (len(g), len(w))):
        for i, (a, b) in enumerate(zip(g, w)):
            r.eq('%s [%d]' % (name, i), a, b, f)


TRI = [(0, 1, 2), (2, 1, 3), (3, 0, 2)]


def recorder(r):
    W = world(r)
    S = Stage(W)
    U = W.new(US + 'USD', 'out/scene.usda')
    return W, S, U


def U01(r):
    """a recording holds the meshes and motions it was given"""
    f = gone(world(r), US + 'USD.add_rigid_body', r)
    X, Y = V('x', (4, 3)), V('y', (4, 3))
    with r.section('rigid bodies', f):
        W, S, U = recorder(r)
        f = W.fn(US + 'USD.add_rigid_body')
        W.meth(U, 'add_rigid_body', 'one', A(W, X), A(W, arr(TRI)))
        W.meth(U, 'add_rigid_body', 'two', A(W, Y), A(W, arr(TRI[:2])))
        for nm, P, F in (('one', X, TRI), ('two', Y, TRI[:2])):
            p = S.prims.get('/scene/xform/' + nm)
            if not r.fact('rigid body %s is a mesh of its own below the scene' % nm, p is not None and p['kind'] == 'Mesh', f, 'paths %s' % sorted(S.prims)):
                continue
            for at, want in (('Points', P), ('FaceVertexIndices', arr([i for x in F for i in x])), ('FaceVertexCounts', arr([3] * len(F)))):
                h = p['attrs'].get(at, [])
                if r.fact('%s of %s are set once' % (at, nm), len(h) == 1 and h[0][0] is None, f, '%d times' % len(h)):
                    same_flat(r, W, '%s of %s' % (at, nm), h[0][1], want, f)
        f = W.fn(US + 'USD.update_rigid_body')
        ts = [tm.sym('t0'), tm.sym('t1'), tm.sym('t2')]
        for k, t in enumerate(ts):
            W.meth(U, 'update_rigid_body', 'one', A(W, V('r%d' % k, 3)), A(W, V('q%d' % k, 4)), t)
            if k == 1:
                W.meth(U, 'update_rigid_body', 'two', A(W, V('s', 3)), A(W, V('p', 4)), t)
        for nm, want in (('one', [(ts[k], V('r%d' % k, 3), V('q%d' % k, 4)) for k in range(3)]), ('two', [(ts[1], V('s', 3), V('p', 4))])):
            ops = S.prims['/scene/xform/' + nm]['ops']
            kinds = [kind_of(o) for o in ops]
            if not r.fact('%s is translated after it is rotated, by one operation each' % nm, kinds == ['translate', 'orient'], f, 'operations %s' % kinds):
                continue
            for o, c in zip(ops, (1, 2)):
                smp = o['samples'].get('v', [])
                if r.fact('%s of %s has one sample per update' % (kind_of(o), nm), len(smp) == len(want), f, '%d samples' % len(smp)):
                    for k, (s_, w) in enumerate(zip(smp, want)):
                        if r.fact('%s sample %d of %s has a time' % (kind_of(o), k, nm), s_[0] is not None, f, 'no time'):
                            r.eq('time of %s sample %d of %s' % (kind_of(o), k, nm), s_[0], w[0], f)
                        same_flat(r, W, '%s sample %d of %s' % (kind_of(o), k, nm), s_[1], w[c], f)
            r.fact('updates leave the mesh of %s alone' % nm, all(len(v) == 1 for v in S.prims['/scene/xform/' + nm]['attrs'].values()), f, 'rewritten')
    for tag, nm, r_, q_ in (('an unknown body', 'three', 3, 4), ('a translation of two numbers', 'one', 2, 4), ('a rotation of three numbers', 'one', 3, 3)):
        with r.section('updating with ' + tag, f):
            W, S, U = recorder(r)
            f = W.fn(US + 'USD.update_rigid_body')
            W.meth(U, 'add_rigid_body', 'one', A(W, X), A(W, arr(TRI)))
            refused(r, 'updating with %s is rejected' % tag, f, lambda: W.meth(U, 'update_rigid_body', nm, A(W, V('r', r_)), A(W, V('q', q_)), tm.sym('t')))
    with r.section('duplicate body', f):
        W, S, U = recorder(r)
        f = W.fn(US + 'USD.add_rigid_body')
        W.meth(U, 'add_rigid_body', 'one', A(W, X), A(W, arr(TRI)))
        refused(r, 'a second rigid body of the same name is rejected', f, lambda: W.meth(U, 'add_rigid_body', 'one', A(W, Y), A(W, arr(TRI))))
        h = S.prims['/scene/xform/one']['attrs']['Points']
        r.fact('and the first is kept', len(h) == 1, f, 'overwritten')
        W.meth(U, 'add_mesh', 'two', A(W, X), A(W, arr(TRI)))
        refused(r, 'a rigid body with the name of a mesh is rejected', f, lambda: W.meth(U, 'add_rigid_body', 'two', A(W, Y), A(W, arr(TRI))))
    with r.section('mesh as rigid body', f):
        W, S, U = recorder(r)
        W.meth(U, 'add_mesh', 'm', A(W, X), A(W, arr(TRI)))
        f = W.fn(US + 'USD.update_rigid_body')
        refused(r, 'a mesh is not moved as a rigid body', f, lambda: W.meth(U, 'update_rigid_body', 'm', A(W, V('r', 3)), A(W, V('q', 4)), tm.sym('t')))
    f = W.fn(US + 'USD.add_mesh')
    with r.section('meshes', f):
        W, S, U = recorder(r)
        f = W.fn(US + 'USD.add_mesh')
        quads = [(0, 1, 2, 3), (3, 2, 1, 0)]
        W.meth(U, 'add_mesh', 'm', A(W, X), A(W, arr(TRI)))
        W.meth(U, 'add_mesh', 'n', A(W, Y), A(W, arr(quads)))
        both = [(0, 1, 2), (0, 1, 2, 3), (2, 1, 0)]
        W.meth(U, 'add_mesh', 'o', A(W, Y), W.ip.lst([W.ip.lst([lift(i) for i in x], W.st) for x in both], W.st))
        for nm, P, F in (('m', X, TRI), ('n', Y, quads), ('o', Y, both)):
            p = S.prims.get('/scene/xform/' + nm)
            if not r.fact('mesh %s is a mesh of its own below the scene' % nm, p is not None and p['kind'] == 'Mesh', f, 'paths %s' % sorted(S.prims)):
                continue
            for at, want in (('Points', P), ('FaceVertexIndices', arr([i for x in F for i in x])), ('FaceVertexCounts', arr([len(x) for x in F]))):
                h = p['attrs'].get(at, [])
                if r.fact('%s of %s are set once' % (at, nm), len(h) == 1 and h[0][0] is None, f, '%d times' % len(h)):
                    same_flat(r, W, '%s of %s' % (at, nm), h[0][1], want, f)
        f = W.fn(US + 'USD.set_mesh_positions')
        ts = [tm.sym('t0'), tm.sym('t1')]
        Z = [V('z%d' % k, (4, 3)) for k in range(2)]
        for t, z in zip(ts, Z):
            W.meth(U, 'set_mesh_positions', 'm', A(W, z), t)
        h = S.prims['/scene/xform/m']['attrs']['Points']
        if r.fact('every position set is a sample of the mesh', len(h) == 3, f, '%d samples' % (len(h) - 1)):
            for k in range(2):
                if r.fact('sample %d has a time' % k, h[1 + k][0] is not None, f, 'no time'):
                    r.eq('time of sample %d' % k, h[1 + k][0], ts[k], f)
                same_flat(r, W, 'positions of sample %d' % k, h[1 + k][1], Z[k], f)
        r.fact('other meshes are left alone', len(S.prims['/scene/xform/n']['attrs']['Points']) == 1, f, 'changed')
        f = W.fn(US + 'USD.get_mesh_positions')
        for k in range(2):
            same_flat(r, W, 'positions read back at time %d' % k, W.meth(U, 'get_mesh_positions', 'm', ts[k]), Z[k], f)
    for nm_ in ('set_mesh_positions', 'get_mesh_positions'):
        with r.section(nm_ + ' of an unknown mesh', f):
            W, S, U = recorder(r)
            f = W.fn(US + 'USD.' + nm_)
            W.meth(U, 'add_mesh', 'm', A(W, X), A(W, arr(TRI)))
            refused(r, '%s rejects an unknown mesh' % nm_, f, lambda: W.meth(U, nm_, 'k', *(([A(W, Y)] if nm_[0] == 's' else []) + [tm.sym('t')])))
    with r.section('time range and file', f):
        W, S, U = recorder(r)
        f = W.fn(US + 'USD.set_animation_time')
        W.meth(U, 'set_animation_time', tm.sym('T'))
        c = dict(S.calls)
        if r.fact('a range of times is set', 'start' in c and 'end' in c, f, '%s' % sorted(c)):
            r.eq('the animation starts at zero', lift(c['start']), ZERO, f)
            r.eq('the animation ends at its duration', c['end'], tm.sym('T'), f)
        f = W.fn(US + 'USD.set_frames_per_second')
        W.meth(U, 'set_frames_per_second', tm.sym('fps'))
        c = dict(S.calls)
        if r.fact('a frame rate is set', 'fps' in c, f, '%s' % sorted(c)):
            r.eq('frame rate of the recording', c['fps'], tm.sym('fps'), f)
        f = W.fn(US + 'USD.save')
        r.fact('nothing is written before saving', S.exports == [], f, 'written to %s' % S.exports)
        W.meth(U, 'save')
        r.fact('the recording is written to its file', S.exports == ['out/scene.usda'], f, 'written to %s' % S.exports)
        r.fact('everything recorded is below one transform', S.prims.get('/scene/xform', {}).get('kind') == 'Xform', f, 'paths %s' % sorted(S.prims))


def refused(r, name, f, go):
    try:
        go()
    except Dead:
        r.fact(name, True, f)
        return
    except Unsupported as e:
        r.undecided(name, f, e)
        return
    r.fact(name, False, f, 'accepted')
