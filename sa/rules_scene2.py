"""Choosing a scene by name, writing a scene to a file, reading a robot from a file."""
from .rules_scene import *

CS = SC + 'create_scene.'
# scene name -> what has to be created for it
RECIPES = {
    'pillar': ('ground', 'pillar'), 'arch': ('ground', 'arch'), 'dome': ('ground', 'dome'), 'tower': ('ground', 'tower'),
    'colosseum': ('ground', 'colosseum'), 'pantheon': ('ground', 'pantheon'), 'funnel': ('ground', 'funnel'),
    'glasses': ('ground', 'glasses'), 'poles': ('ground', 'poles'), 'temple': ('ground', 'temple'),
    'chainmail': ('chainmail', 'jack_lattice'), 'gear_train': ('gear_train',), 'rock_slide': ('rock_slide',),
    'sandbox': ('sandbox',), 'box_stack': ('ground', 'box_stack'), 'cube_hinge_chain': ('cube_hinge_chain',), 'ur5': ('read_urdf',)}
COUNTS = {'stones', 'pier_stones', 'arch_stones', 'layers', 'segments', 'levels', 'arches', 'I', 'J', 'K', 'I_poles', 'K_poles', 'I_grid', 'J_grid',
          'K_grid', 'I_pillars', 'K_pillars', 'pillar_stones', 'columns', 'rows', 'N', 'I_rocks', 'J_rocks', 'K_rocks', 'I_grains',
          'J_grains', 'K_grains', 'K_boxes', 'K_cubes'}


def bind(f, a, kw):
    """arguments by parameter name; None when the call does not fit the signature"""
    ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    if len(a) > len(ps):
        return None
    out = dict(zip(ps, a))
    for k, v in kw.items():
        if k in out or k not in ps:
            return None
        out[k] = v
    nd = len(f.node.args.defaults)
    if any(p not in out for p in ps[:len(ps) - nd]):
        return None
    return out


def R23(r):
    """a scene is chosen by its name"""
    S = SceneWorld(r)
    f = S.W.fn(CS + 'create_scene')
    fn = S.W.fn(CS + 'get_scene_names')
    names = S.names(S.W.call(fn))
    if not r.fact('the list of scene names consists of strings', names is not None, fn, 'something else'):
        return
    r.fact('scene names are different', len(set(names)) == len(names), fn, 'repeated: %s' % sorted(n for n in set(names) if names.count(n) > 1))
    r.fact('every documented scene can be chosen', set(RECIPES) <= set(names), fn, 'missing: %s' % sorted(set(RECIPES) - set(names)))
    for name in names:
        if name not in RECIPES:
            r.undecided('scene %s' % name, fn, 'a scene this rule does not know')
            continue
        with r.section('scene %s' % name, 'create_scene', total=True):
            one_scene(r, name, f)
    with r.section('the list of names is not shared', 'get_scene_names'):
        a, b = S.W.call(fn), S.W.call(fn)
        r.fact('the caller may change the list of names', not S.W.ip.same(a, b), fn, 'the same list is handed out again')


def one_scene(r, name, f):
    S = SceneWorld(r)
    W = S.W
    called = []

    def creator(what):
        q = SC + (('%s.%s' % (what, what)) if what == 'read_urdf' else 'create_%s.create_%s' % (what, what))

        def model(ip, st, a, kw):
            called.append((what, bind(W.fn(q), a, kw)))
            e = called[-1][1]['engine'] if called[-1][1] else S.E
            for k in range(2):
                nm = '%s %d %d' % (what, len(called), k)
                ip.call(W.fn(API + 'create_rigid_body'), [e, nm], {}, st)
            return ip.lst([], st)
        W.ip.models[q] = model
    for what in sorted({x for v in RECIPES.values() for x in v} | {'lattice'}):
        creator(what)
    W.call(f, S.E, name)
    got = tuple(w for w, _ in called)
    r.fact('scene %s: creates %s' % (name, ' and '.join(RECIPES[name])), sorted(got) == sorted(RECIPES[name]), f, 'it creates %s' % (got,))
    for what, b in called:
        tag = 'scene %s: %s ' % (name, what)
        if not r.fact(tag + 'is called with the arguments it takes', b is not None, f, 'the arguments do not fit its parameters'):
            continue
        r.fact(tag + 'is created in the given engine', W.ip.same(b['engine'], S.E), f, 'another engine')
        num = {}
        for k, v in b.items():
            if isinstance(v, T) and v.const() is not None:
                num[k] = v.const()
        for k, v in num.items():
            if k in COUNTS:
                r.fact(tag + '%s is a whole number above zero' % k, v == int(v) and v > 0, f, '%s = %s' % (k, v))
            elif k not in ('r', 'q', 'use_random_orientation', 'use_cubes', 'fixed_corners', 'use_fixed_corners'):
                r.fact(tag + '%s is positive' % k, v > 0, f, '%s = %s' % (k, v))
        if what != 'read_urdf':
            m = b.get('material_name')
            ok = isinstance(m, str) and tm.implies(W.st.pc, W.ip.truth(W.meth(W.get(S.E, 'surfaces_interactions'), 'exist_material', m), W.st))
            r.fact(tag + 'uses a material of the engine', ok, f, 'material %s' % (m,))
        for hi, lo in (('outer_radius', 'inner_radius'), ('major_radius', 'minor_radius')):
            if hi in num and lo in num:
                r.fact(tag + '%s exceeds %s' % (hi, lo), num[hi] > num[lo] * (2 if hi == 'major_radius' else 1), f, '%s and %s' % (num[hi], num[lo]))
        if 'arch' == what and 'width' in num:
            r.fact(tag + 'leaves room for piers', num['height'] > num['width'] / 2, f, 'height %s, width %s' % (num['height'], num['width']))
        if what != 'jack_lattice' and isinstance(b.get('r'), Arr):
            eqv(r, tag + 'stands at the origin', W, b['r'], zeros(3), f)
        if isinstance(b.get('q'), Arr):
            eqv(r, tag + 'is not turned', W, b['q'], ONEQ, f)
        if what == 'jack_lattice':
            p = cells(W, b['r'])
            for ax, s in ((0, 'width'), (2, 'depth')):
                r.eq(tag + 'hangs centred over the mail [%d]' % ax, 2 * p[ax] + b[s], ZERO, f)
            r.holds(tag + 'hangs above the mail', tm.lt(ZERO, p[1]), f)
    forces = {sg.key: sg.value for sg in W.ip.content(W.get(S.E, 'forces').oid, W.st).segs}
    kinds = {}
    for k, v in forces.items():
        kinds.setdefault(W.get(v, 'force_type'), []).append(v)
    if r.fact('scene %s: one gravity and one damping force' % name, sorted(kinds) == ['Damping', 'Gravity'] and all(len(v) == 1 for v in kinds.values()), f,
              'forces %s' % sorted((k, len(v)) for k, v in kinds.items())):
        g, d = kinds['Gravity'][0], kinds['Damping'][0]
        r.eq('scene %s: gravity of the earth' % name, W.get(g, 'g'), frac(981, 100), f)
        eqv(r, 'scene %s: gravity pulls down' % name, W, W.get(g, 'up'), [ZERO, ONE, ZERO], f)
        r.eq('scene %s: linear damping' % name, W.get(d, 'alpha'), frac(1, 100), f)
        r.eq('scene %s: angular damping' % name, W.get(d, 'beta'), frac(1, 100), f)
        bodies = S.bodies()
        r.fact('scene %s: all bodies are there' % name, len(bodies) == 1 + 2 * len(called), f, '%d bodies' % len(bodies))
        for n, b in bodies.items():
            fs = items(W, W.get(b, 'forces'))
            r.fact('scene %s: both forces act once on every body [%s]' % (name, n), len(fs) == 2 and any(W.ip.same(x, g) for x in fs) and any(W.ip.same(x, d) for x in fs), f,
                   '%d forces act on %s' % (len(fs), n))


TREE = 'xml.etree.ElementTree.'


def leaves(k):
    """numbers and conditions in the text a value was turned into, in order"""
    if isinstance(k, (T, B)):
        return [k]
    if isinstance(k, Opq):
        return leaves(k.key)
    if isinstance(k, tuple):
        if len(k) > 1 and k[0] == 'arr' and isinstance(k[1], tuple) and all(isinstance(x, int) for x in k[1]):
            k = k[2:]
        elif len(k) > 1 and k[0] in ('ext', 'str', 'fmt', 'fstr', 'concat', 'repr'):
            k = k[1:]
        return [x for y in k for x in leaves(y)]
    if isinstance(k, str):
        try:
            return [lift(Fraction(k))]
        except (ValueError, ZeroDivisionError):
            pass
    return []


class Xml:
    """the document a function builds"""

    def __init__(self, S):
        self.nodes, self.roots, self.written = [], [], []
        m = S.W.ip.models
        m[TREE + 'Element'] = self.element
        m[TREE + 'SubElement'] = self.sub
        m[TREE + 'ElementTree'] = self.tree
        m[TREE + 'indent'] = lambda ip, st, a, kw: None

    def node(self, tag, at):
        d = {'tag': tag, 'at': dict(at), 'kids': [], 'obj': None}

        def set_(ip, st, a, kw):
            d['at'][a[0]] = a[1]

        def append(ip, st, a, kw):
            d['kids'].append(self.of(a[0]))
        d['obj'] = NObj('xml element %d' % len(self.nodes), {'set': Native(set_, 'set'), 'append': Native(append, 'append'), 'tag': tag})
        self.nodes.append(d)
        return d

    def of(self, o):
        return next(d for d in self.nodes if d['obj'] is o)

    def attribs(self, ip, st, a, kw, k):
        at = {x: v for x, v in kw.items() if x != 'attrib'}
        src = kw.get('attrib', a[k] if len(a) > k else None)
        if src is not None:
            at.update({sg.key: sg.value for sg in ip.content(src.oid, st).segs})
        return at

    def element(self, ip, st, a, kw):
        return self.node(a[0], self.attribs(ip, st, a, kw, 1))['obj']

    def sub(self, ip, st, a, kw):
        d = self.node(a[1], self.attribs(ip, st, a, kw, 2))
        self.of(a[0])['kids'].append(d)
        return d['obj']

    def tree(self, ip, st, a, kw):
        root = self.of(a[0])

        def write(ip2, st2, b, kw2):
            self.written.append((b[0] if b else kw2.get('file_or_filename'), root))
        return NObj('xml tree', {'write': Native(write, 'write'), 'getroot': Native(lambda *x: root['obj'], 'getroot')})


def kids(d, tag):
    return [k for k in d['kids'] if k['tag'] == tag]


def R24(r):
    """an exported scene describes the engine"""
    S = SceneWorld(r)
    W = S.W
    f = W.fn(SC + 'write_xml.write_xml')
    E = S.E
    call = lambda n, *a: W.call(API + n, E, *a)
    for k in range(2):
        call('create_shape', 'shape %d' % k, W.new(MS + 'Mesh', A(W, V('L%d' % k, (4 + k, 3))), A(W, TETRA[k:])))
        nm = 'body %d' % k
        call('create_rigid_body', nm)
        call('connect_shape', nm, 'shape %d' % k)
        call('set_position', nm, A(W, V('r%d' % k, 3)), FALSE)
        call('set_orientation', nm, A(W, V('q%d' % k, 4)), FALSE)
        call('set_velocity', nm, A(W, V('v%d' % k, 3)))
        call('set_spin', nm, A(W, V('w%d' % k, 3)))
        call('set_mass_properties', nm, y('rho%d' % k))
        call('set_body_material', nm, ('stone', 'default')[k])
        call('set_body_type', nm, ('fixed', 'free')[k])
    call('create_gravity_force', 'pull', y('g'), A(W, V('up', 3)))
    call('create_gravity_force', 'other pull', y('g2'), A(W, [0, 0, 1]))
    call('create_damping_force', 'drag', y('alpha'), y('beta'))
    call('connect_force', 'body 0', 'drag')
    call('connect_force', 'body 1', 'drag')
    call('connect_force', 'body 1', 'pull')
    call('create_surfaces_interaction', 'stone', 'wood', y('eps'), A(W, [y('m0'), y('m1'), y('m2')]))
    for k in range(2):
        call('create_hinge', 'joint %d' % k)
        a, b = ('body %d' % (1 - k), 'body %d' % k)
        call('set_hinge', 'joint %d' % k, a, b, A(W, V('o%d' % k, 3)), A(W, V('s%d' % k, 3)), 'world')
    for n, v in (('time_step', y('dt')), ('max_iterations', y('mi')), ('use_bounce', TRUE)):
        W.ip.setattr(W.get(E, 'params'), n, v, W.st)
    hk = [unit_hook('q0', 'q1', 'up', 's0', 's1'), pos_hook(*[str(y(n)) for n in ('g', 'g2', 'alpha', 'beta', 'm0', 'm1', 'm2', 'rho0', 'rho1', 'eps')])] + list(HK)
    before = W.ip.key(E, W.st)
    X = Xml(S)
    W.call(f, E, 'the file')
    c = W.st.pc
    r.fact('exporting does not change the engine', W.ip.key(E, W.st) == before, f, 'the engine is different afterwards')
    if not r.fact('the document is written once to the given file', len(X.written) == 1 and X.written[0][0] == 'the file', f,
                  'written to %s' % [w[0] for w in X.written]):
        return
    root = X.written[0][1]
    todo = [root]
    while todo:
        d = todo.pop()
        todo += d['kids']
        r.fact('attributes of <%s> are text' % d['tag'], all(isinstance(v, str) or (isinstance(v, Opq) and (v.ty == 'str' or 'array2string' in str(v.key[:2])))
                                                             for v in d['at'].values()), f,
               'not text: %s' % [k for k, v in d['at'].items() if not isinstance(v, (str, Opq)) or (isinstance(v, Opq) and v.ty != 'str')])

    def group(tag, kid):
        g = kids(root, tag)
        if not r.fact('one <%s> element' % tag, len(g) == 1, f, '%d elements' % len(g)):
            return []
        return kids(g[0], kid)

    def names(ds, want, what):
        got = [d['at'].get('name') for d in ds]
        r.fact('every %s of the engine is exported once' % what, sorted(map(str, got)) == sorted(want), f, 'exported: %s' % got)
        return {n: d for n, d in zip(got, ds)}

    def has(what, d, key, want):
        v = d['at'].get(key)
        if isinstance(want, str):
            r.fact('%s: %s' % (what, key), v == want, f, '%s instead of %s' % (v, want))
            return
        want = [x if isinstance(x, (T, B)) else lift(x) for x in (np.ravel(want) if not isinstance(want, (T, B, int)) else [want])]
        got = leaves(v) if v is not None else []
        if isinstance(want[0], B):
            t = {'True': TRUE, 'False': FALSE}.get(v)
            got = [t] if t is not None else got
        if not r.fact('%s: %s has its %d values' % (what, key, len(want)), len(got) == len(want), f, '%d values are written' % len(got)):
            return
        for k, (x, z) in enumerate(zip(got, want)):
            r.eq('%s: %s[%d]' % (what, key, k), x, z, f, care=c, hooks=hk)

    bodies = S.bodies()
    bd = names(group('bodies', 'body'), list(bodies), 'body')
    for n, b in bodies.items():
        d = bd.get(n)
        if d is None:
            continue
        g = lambda q: W.get(b, q)
        for key, q in (('pos', 'r'), ('rot', 'q'), ('vel', 'v'), ('spin', 'w'), ('inertia', 'inertia')):
            has(n, d, key, list(cells(W, g(q))))
        for key in ('mass', 'idx', 'is_fixed'):
            has(n, d, key, g(key))
        has(n, d, 'shape', W.get(g('shape'), 'name'))
        has(n, d, 'material', g('material'))
        want = [W.get(x, 'name') for x in items(W, g('forces'))]
        got = [k['at'].get('name') for k in kids(d, 'apply')]
        r.fact('%s: the forces acting on it' % n, sorted(map(str, got)) == sorted(want), f, 'exported: %s' % got)
    g = kids(root, 'forces')
    if r.fact('one <forces> element', len(g) == 1, f, '%d elements' % len(g)):
        fd = {k['at'].get('name'): k for k in g[0]['kids']}
        r.fact('every force of the engine is exported once', len(g[0]['kids']) == 3 and set(fd) == {'pull', 'other pull', 'drag'}, f, 'exported: %s' % sorted(map(str, fd)))
        for n, tag, at in (('pull', 'gravity', {'g': y('g'), 'up': V('up', 3)}), ('other pull', 'gravity', {'g': y('g2'), 'up': arr([0, 0, 1])}),
                           ('drag', 'damping', {'alpha': y('alpha'), 'beta': y('beta')})):
            if n in fd and r.fact('%s is a %s force' % (n, tag), fd[n]['tag'] == tag, f, fd[n]['tag']):
                for k, v in at.items():
                    has(n, fd[n], k, v)
    shapes = S.shapes()
    sd = names(group('shapes', 'shape'), list(shapes), 'shape')
    for n, s in shapes.items():
        if n not in sd:
            continue
        mesh = W.get(s, 'mesh')
        for tag, kid, key, q in (('vertices', 'v', 'p', 'V'), ('triangles', 't', 'labels', 'T')):
            M = cells(W, W.get(mesh, q))
            ds = kids(sd[n], tag)
            if not r.fact('%s: one list of %s' % (n, tag), len(ds) == 1, f, '%d lists' % len(ds)):
                continue
            has('%s %s' % (n, tag), ds[0], 'count', lift(len(M)))
            ks = kids(ds[0], kid)
            if r.fact('%s: every one of its %s' % (n, tag), len(ks) == len(M), f, '%d instead of %d' % (len(ks), len(M))):
                for i, k in enumerate(ks):
                    has('%s %s %d' % (n, tag, i), k, 'idx', lift(i))
                    has('%s %s %d' % (n, tag, i), k, key, list(M[i]))
    ms = group('materials', 'interaction')
    st = W.ip.content(W.get(W.get(E, 'surfaces_interactions'), 'storage').oid, W.st).segs
    if r.fact('every material interaction is exported once', len(ms) == len(st), f, '%d instead of %d' % (len(ms), len(st))):
        for d, sg in zip(ms, st):
            what = 'interaction of %s and %s' % tuple(sg.key)
            v = d['at'].get('materials')
            r.fact('%s: materials' % what, all(n in repr(v.key if isinstance(v, Opq) else v) for n in sg.key), f, 'exported: %s' % (v,))
            has(what, d, 'friction', list(cells(W, W.get(sg.value, 'mu'))))
            has(what, d, 'restitution', W.get(sg.value, 'epsilon'))
    hd = names(group('hinges', 'hinge'), ['joint 0', 'joint 1'], 'hinge')
    for n, h in S.hinges().items():
        if n not in hd:
            continue
        d = hd[n]
        k = n[-1]
        for side in ('parent', 'child'):
            b = W.get(h, side)
            has(n, d, side, W.get(b, 'name'))
            has(n, d, side + '-idx', W.get(b, 'idx'))
        r.fact('%s: given in the world' % n, d['at'].get('mode') == 'world', f, 'mode %s' % (d['at'].get('mode'),))
        has(n, d, 'origin', V('o' + k, 3))
        has(n, d, 'axis', V('s' + k, 3))
    pd = {d['at'].get('name'): d for d in group('params', 'param')}
    fields = W.ip.content(W.get(E, 'params').oid, W.st)
    r.fact('every parameter is exported', set(pd) == set(fields), f, 'differ: %s' % sorted(set(pd) ^ set(fields)))
    for n, v in fields.items():
        if n in pd:
            has('parameter %s' % n, pd[n], 'value', v)
            ty = pd[n]['at'].get('type')
            r.fact('parameter %s: type' % n, (ty == 'bool') == isinstance(v, B), f, 'type %s' % (ty,))


# ---------------------------------------------------------------- robots
def element(W, tag, at=(), kids=()):
    """an element of a parsed document"""
    kids = list(kids)

    def find(ip, st, a, kw):
        return next((k for t, k in kids if t == a[0]), None)

    def findall(ip, st, a, kw):
        return ip.lst([k for t, k in kids if t == a[0]], st)
    d = W.dct()
    for k, v in dict(at).items():
        W.ip.np.setitem(d, k, v, W.st)
    o = NObj('element ' + tag, {'tag': tag, 'attrib': d, 'find': Native(find, 'find'), 'findall': Native(findall, 'findall'), 'iterfind': Native(findall, 'iterfind'),
                                'get': Native(lambda ip, st, a, kw: W.ip.call(W.ip.getattr(d, 'get', st), a, kw, st), 'get'),
                                '__iter__': Native(lambda ip, st, a, kw: ip.lst([k for _, k in kids], st), '__iter__')})
    return (tag, o)


def triple(n):
    return '%s.0 %s.1  %s.2' % (n, n, n)


def rpy(n):
    """the frame a file gives as translation n.0 n.1 n.2 and angles n.3 n.4 n.5 about the fixed axes"""
    def rot(ax, a):
        q = [tm.fun('cos', a / 2), ZERO, ZERO, ZERO]
        q[1 + ax] = tm.fun('sin', a / 2)
        return arr(q)
    q = qmul(rot(2, y(n + '.5')), qmul(rot(1, y(n + '.4')), rot(0, y(n + '.3'))))
    return arr([y(n + '.%d' % k) for k in range(3)]), q


def origin(W, n):
    return element(W, 'origin', {'xyz': triple(n), 'rpy': '%s.3 %s.4 %s.5' % (n, n, n)})


def then(X, Y):
    """the frame Y given in the frame X"""
    return qrot(X[1], Y[0]) + X[0], qmul(X[1], Y[1])


EYE = (zeros(3), arr([1, 0, 0, 0]))


def R25(r):
    """a robot is assembled as its file says"""
    # (name, parent, has a body)
    variants = {
        'chain': [('hand', 'arm'), ('base', None), ('arm', 'base')],
        'tree': [('base', None), ('left', 'base'), ('right', 'base'), ('finger', 'right')],
        'single joint': [('b', 'a'), ('a', None)],
    }
    for what, links in variants.items():
        for plain in ((False, True) if what == 'single joint' else (False,)):
            with r.section('%s%s' % (what, ' (defaults)' if plain else ''), 'read_urdf', total=True):
                robot(r, what + (' (defaults)' if plain else ''), links, plain)


def robot(r, what, links, plain):
    S = SceneWorld(r)
    W = S.W
    f = W.fn(SC + 'read_urdf.read_urdf')
    m = W.ip.models

    def number(ip, st, a, kw):
        t = a[0]
        if isinstance(t, str):
            t = t.strip()
            try:
                return lift(Fraction(t))
            except ValueError:
                return y(t)
        return ip.np.num(t, st)
    m['builtins.float'] = number
    opened, meshes = [], []

    def read(ip, st, a, kw):
        fn = a[0] if a else kw['filename']
        meshes.append(fn)
        k = fn.split('/')[-1].split('.')[0] if isinstance(fn, str) else '?'
        return ip.arr(V('V' + k, (4, 3)), st), ip.arr(arr(TETRA), st)
    m['igl.read_triangle_mesh'] = read

    def parse(ip, st, a, kw):
        opened.append(a[0] if a else kw.get('source'))
        return NObj('xml tree', {'getroot': Native(lambda *x: root[1], 'getroot'), 'findall': root[1].attrs['findall'], 'find': root[1].attrs['find']})
    m[TREE + 'parse'] = parse
    doc = []
    for n, _ in links:
        ins = [] if plain else [origin(W, 'in.' + n)]
        col = [] if plain else [origin(W, 'co.' + n)]
        mesh = {'filename': 'package://parts/%s.STL' % n}
        if not plain:
            mesh['scale'] = triple('sc.' + n)
        doc.append(element(W, 'link', {'name': n}, [
            element(W, 'inertial', {}, ins + [element(W, 'mass', {'value': 'mass.' + n}),
                                              element(W, 'inertia', {'ixx': 'I.%s.0' % n, 'iyy': 'I.%s.1' % n, 'izz': 'I.%s.2' % n, 'ixy': '0', 'ixz': '0', 'iyz': '0'})]),
            element(W, 'visual', {}, [element(W, 'geometry', {}, [element(W, 'mesh', {'filename': 'package://shown/%s.dae' % n})])]),
            element(W, 'collision', {}, col + [element(W, 'geometry', {}, [element(W, 'mesh', mesh)])])]))
    doc.append(element(W, 'link', {'name': 'virtual'}))
    for n, p in links:
        if p is not None:
            kids_ = [element(W, 'parent', {'link': p}), element(W, 'child', {'link': n}), element(W, 'limit', {'lower': '-1', 'upper': '1'})]
            if not plain:
                kids_ += [origin(W, 'jo.' + n), element(W, 'axis', {'xyz': triple('ax.' + n)})]
            doc.append(element(W, 'joint', {'name': 'joint ' + n, 'type': 'revolute'}, kids_))
    doc.append(element(W, 'joint', {'name': 'welded', 'type': 'fixed'}, [element(W, 'parent', {'link': links[0][0]}), element(W, 'child', {'link': 'virtual'})]))
    root = element(W, 'robot', {'name': 'robot'}, doc)
    W.call(f, S.E, 'the folder', 'robots/it.urdf')
    r.fact('%s: the file in the package folder is read' % what, opened == ['the folder/robots/it.urdf'], f, 'read: %s' % opened)
    bodies = S.made()
    names = [n for n, _ in links]
    r.fact('%s: one body per link with a shape, with its name' % what, sorted(bodies) == sorted(names), f, 'bodies %s' % sorted(bodies))
    r.fact('%s: every collision mesh is read from the package folder' % what,
           sorted(x for x in meshes if 'parts' in x) == sorted('the folder/parts/%s.STL' % n for n in names), f, 'meshes %s' % meshes)
    parent = dict(links)
    ref = {}

    def reference(n):
        if n not in ref:
            p = parent[n]
            ref[n] = EYE if p is None else then(reference(p), EYE if plain else rpy('jo.' + n))
        return ref[n]
    c = care(S)
    hs = S.hinges()
    r.fact('%s: one hinge per revolute joint, with its name' % what, sorted(hs) == sorted('joint ' + n for n in names if parent[n]), f, 'hinges %s' % sorted(hs))
    for n in names:
        if n not in bodies:
            continue
        b = bodies[n]
        tag = '%s: %s ' % (what, n)
        X = then(reference(n), EYE if plain else rpy('in.' + n))
        p, q = S.pose(b)
        eqv(r, tag + 'has its center of mass at the origin of its inertial frame', W, p, X[0], f, care=c)
        eqv(r, tag + 'is turned like its inertial frame', W, qmat(q).ravel(), qmat(X[1]).ravel(), f, care=c)
        r.eq(tag + 'has the mass of the file', W.get(b, 'mass'), y('mass.' + n), f, care=c)
        eqv(r, tag + 'has the moments of inertia of the file', W, W.get(b, 'inertia'), [y('I.%s.%d' % (n, k)) for k in range(3)], f, care=c)
        r.fact(tag + 'is free', not is_fixed(S, b), f, 'it is fixed')
        eqv(r, tag + 'is at rest', W, np.concatenate([cells(W, W.get(b, 'v')), cells(W, W.get(b, 'w'))]), zeros(6), f, care=c)
        G = V('V' + n, (4, 3))
        if not plain:
            G = np.array([[v[k] * y('sc.%s.%d' % (n, k)) for k in range(3)] for v in G], dtype=object)
        Y = then(reference(n), EYE if plain else rpy('co.' + n))
        want = np.array([qrot(Y[1], v) + Y[0] for v in G], dtype=object)
        eqv(r, tag + 'carries its collision mesh, scaled, at its place', W, S.world_vertices(b).ravel(), want.ravel(), f, care=c, samples=4)
        h = hs.get('joint ' + n)
        if parent[n] is None or h is None:
            continue
        (b0, o0, s0), (b1, o1, s1) = joint(S, h)
        r.fact(tag + 'is the child of its hinge', W.ip.same(b1, b) and W.ip.same(b0, bodies[parent[n]]), f, 'the hinge joins other bodies')
        a = arr([1, 0, 0]) if plain else arr([y('ax.%s.%d' % (n, k)) for k in range(3)])
        a = a * tm.power(norm(a), -1) if not plain else a
        Xr = reference(n)
        for side, o, s in (('parent', o0, s0), ('child', o1, s1)):
            eqv(r, tag + 'turns about the origin of its joint (%s side)' % side, W, o, Xr[0], f, care=c, samples=4)
            eqv(r, tag + 'turns about the axis of its joint (%s side)' % side, W, s, qrot(Xr[1], a), f, care=c, samples=4)
