"""Hidden state and nondeterminism: whole-program lints over the syntax trees and the call graph."""
import ast

from .lib import program

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'clear', 'remove', 'discard', 'setdefault', 'sort', 'reverse', 'fill', 'appendleft', 'resize', 'itemset', 'put', '__setitem__'}
SCALAR_MAKERS = {'int', 'float', 'str', 'bool', 'tuple', 'frozenset', 'complex', 'bytes', 'len', 'min', 'max', 'abs', 'round', 'sum', 'range', 'property', 'object', 'TypeVar', 'namedtuple'}
GLOBAL_EFFECTS = {'numpy.random.seed': 'reseeds the random numbers of the whole process', 'random.seed': 'reseeds the random numbers of the whole process',
                  'numpy.random.set_state': 'replaces the random state of the whole process', 'random.setstate': 'replaces the random state of the whole process',
                  'numpy.seterr': 'changes the floating point error handling of the whole process', 'numpy.seterrcall': 'changes the floating point error handling of the whole process',
                  'numpy.set_printoptions': 'changes how numpy prints for the whole process', 'sys.setrecursionlimit': 'changes the recursion limit of the process',
                  'os.chdir': 'changes the working directory of the process', 'warnings.filterwarnings': 'changes the warning filters of the process', 'warnings.simplefilter': 'changes the warning filters of the process',
                  'locale.setlocale': 'changes the locale of the process', 'logging.basicConfig': 'configures logging of the process', 'logging.disable': 'disables logging of the process',
                  'os.putenv': 'changes the environment of the process', 'gc.disable': 'disables garbage collection of the process', 'os.umask': 'changes the file mask of the process'}
RANDOM = ('random.', 'numpy.random.', 'secrets.', 'uuid.')
CLOCK = ('time.', 'datetime.')
CLOCK_OK = {'time.sleep'}


class Fn:
    def __init__(self, mod, qual, node, cls):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.full = mod.name + '.' + qual
        self.where = '%s:%d (%s)' % (mod.rel, node.lineno, qual.split('.')[-1])


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return [n.id] + parts[::-1]
    return None


class Index:
    def __init__(self, prog):
        self.prog = prog
        self.fns, self.by_name, self.classes = [], {}, {}
        self.imports, self.top = {}, {}
        for m in prog.modules.values():
            self.imports[m.name] = self.import_map(m)
            self.top[m.name] = self.bindings(m.tree.body)
            self.collect(m, m.tree.body, '', None)
        for f in self.fns:
            self.by_name.setdefault(f.node.name, []).append(f)
        self.full = {f.full: f for f in self.fns}

    def collect(self, m, body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fns.append(Fn(m, pre + n.name, n, cls))
                self.collect(m, n.body, pre + n.name + '.', None)
            elif isinstance(n, ast.ClassDef):
                self.classes[m.name + '.' + pre + n.name] = (m, n)
                self.collect(m, n.body, pre + n.name + '.', n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self.collect(m, getattr(n, f, []) or [], pre, cls)
                for h in getattr(n, 'handlers', []):
                    self.collect(m, h.body, pre, cls)

    def import_map(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        out[a.asname] = a.name
                    else:
                        out[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = m.name.split('.')[:-n.level] if not m.path.endswith('__init__.py') else m.name.split('.')[:len(m.name.split('.')) - n.level + 1]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = base + '.' + a.name
        return out

    def bindings(self, body):
        """names bound by plain assignments at module level -> value nodes"""
        out = {}
        for n in body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                out.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.Try, ast.If)):
                for f in ('body', 'orelse', 'finalbody'):
                    for k, v in self.bindings(getattr(n, f, []) or []).items():
                        out.setdefault(k, []).extend(v)
        return out

    def path(self, f_or_mod, n, local=()):
        """dotted path a name or attribute denotes outside the package, or inside it"""
        m = getattr(f_or_mod, 'mod', f_or_mod)
        d = dotted(n)
        if not d or d[0] in local:
            return None
        imp = self.imports[m.name]
        if d[0] in imp:
            return '.'.join([imp[d[0]]] + d[1:])
        if d[0] in m.defs or d[0] in self.top[m.name]:
            return m.name + '.' + '.'.join(d)
        return None


def own(node):
    """nodes of a function without those of functions and classes nested in it"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            stack.extend(ast.iter_child_nodes(n))


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def locals_of(node):
    out = set(params(node))
    glob = set()
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= set()
    return out - glob, glob


def mutable_value(n):
    """a value made once that can be changed in place"""
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        d = dotted(n.func)
        return not (d and d[-1] in SCALAR_MAKERS)
    if isinstance(n, ast.BinOp):
        return mutable_value(n.left) or mutable_value(n.right)
    return False


def root_name(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def in_place(n):
    """(target expression whose object is changed) of a statement or call"""
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
        flat = []
        while ts:
            t = ts.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                ts.extend(t.elts)
            else:
                flat.append(t)
        for t in flat:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                yield t.value, t
            elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                yield t, t
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        yield n.func.value, n
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
        yield n.args[0], n


def main_guard(m):
    """nodes below `if __name__ == '__main__'`"""
    out = set()
    for n in m.tree.body:
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(n.test)):
            out |= {id(x) for x in ast.walk(n)}
    return out


# ---------------------------------------------------------------- rules
def shared_state(r, ix):
    """no function changes anything that outlives the objects it is called on"""
    for f in ix.fns:
        loc, glob = locals_of(f.node)
        # names of enclosing functions are not module state
        outer = f.qual.split('.')[:-1]
        enc = set()
        for i in range(len(outer)):
            g = ix.full.get(f.mod.name + '.' + '.'.join(outer[:i + 1]))
            if g is not None:
                enc |= locals_of(g.node)[0]
        bad = []
        for n in own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                bad.append((n, 'rebinds the module variable %s' % n.id))
            for base, site in in_place(n):
                rt = root_name(base)
                if rt is None or rt in loc or rt in enc:
                    continue
                if rt in ix.top[f.mod.name]:
                    bad.append((site, 'changes the module variable %s' % rt))
                elif rt in f.mod.defs:
                    bad.append((site, 'changes an attribute of %s, which every caller shares' % rt))
                elif rt in ix.imports[f.mod.name]:
                    p = ix.imports[f.mod.name][rt]
                    d = dotted(site.func) if isinstance(site, ast.Call) and isinstance(site.func, ast.Attribute) else None
                    if d and (ix.path(f, site.func) or '') in ix.full:
                        continue        # a function of the package that is called like a mutator
                    if d and len(d) == 2 and not (p.startswith('rainbow') and (p in ix.classes or p.rsplit('.', 1)[-1] in ix.top.get(p.rsplit('.', 1)[0], {}))):
                        continue        # a function of a library (np.put and the like take the array as argument)
                    bad.append((site, 'changes %s, which every caller shares' % p))
                elif rt in ('cls', '__class__'):
                    bad.append((site, 'changes the class'))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__class__':
                bad.append((n, 'changes the class'))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'type':
                bad.append((n, 'changes the class'))
        # cls of a class method
        if params(f.node)[:1] == ['cls']:
            for n in own(f.node):
                for base, site in in_place(n):
                    if root_name(base) == 'cls':
                        bad.append((site, 'changes the class'))
        bad = {(s.lineno, w) for s, w in bad}
        r.fact('no state outside its arguments is changed by %s' % f.full, not bad, '%s:%d (%s)' % (f.mod.rel, min(bad)[0], f.node.name) if bad else f.where, '; '.join(w for _, w in sorted(bad)), how='effects of the function')


def class_state(r, ix):
    """mutable values made in a class body are not changed through its instances"""
    for q, (m, c) in ix.classes.items():
        made = {}
        for n in c.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and mutable_value(n.value):
                        made[t.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None and mutable_value(n.value):
                d = dotted(n.value.func) if isinstance(n.value, ast.Call) else None
                if not (d and d[-1] == 'field'):
                    made[n.target.id] = n
        own_init = set()
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == '__init__' and n.args.args:
                me = n.args.args[0].arg
                for x in own(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        own_init.add(x.attr)
        bad = []
        for a, n in made.items():
            if a in own_init:
                continue
            # changed through anything with that attribute anywhere in the package
            for f in ix.fns:
                for x in own(f.node):
                    for base, site in in_place(x):
                        b = base
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Attribute) and b.attr == a:
                            bad.append((site.lineno, f, a))
        r.fact('instances of %s share nothing that is changed' % q, not bad, '%s:%d (%s)' % (bad[0][1].mod.rel, bad[0][0], bad[0][1].node.name) if bad else '%s:%d (%s)' % (m.rel, c.lineno, c.name),
               'the value of the class attribute %s is changed in place, for all instances at once' % (bad[0][2] if bad else ''), how='effects on class attributes')


def aliases(node, name):
    """names of a function that denote (part of) the object bound to a parameter"""
    out = {name}
    while True:
        n0 = len(out)
        for n in own(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)) and root_name(n.value) in out:
                if isinstance(n.value, ast.Name):
                    out.add(n.targets[0].id)
        if len(out) == n0:
            return out


def escapes(ix, f, name):
    """how the value of a parameter is changed, kept or handed out"""
    al = aliases(f.node, name)
    # rebound before use, as in `x = [] if x is None else x` or `x = list(x)`
    for n in own(f.node):
        for base, site in in_place(n):
            if root_name(base) in al and not (isinstance(site, ast.Name)):
                return site.lineno, 'changed in place'
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id in al:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    return n.lineno, 'kept in an object'
        if isinstance(n, (ast.Return, ast.Yield)) and isinstance(n.value, ast.Name) and n.value.id in al:
            return n.lineno, 'returned'
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in al:
            return n.lineno, 'changed in place'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'setdefault') and any(isinstance(a, ast.Name) and a.id in al for a in n.args):
            return n.lineno, 'kept in a collection'
        if isinstance(n, ast.Call):
            p = ix.path(f, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
            g = ix.full.get(p) if p else None
            if g is not None and g is not f:
                ps = params(g.node)
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id in al and i < len(ps):
                        e = escapes(ix, g, ps[i]) if len(ps) > i and (g.full, ps[i]) not in SEEN else None
                        if e:
                            return n.lineno, '%s by %s' % (e[1], g.node.name)
    return None


SEEN = set()


def defaults(r, ix):
    """values of default arguments, made once, are neither changed nor kept"""
    for f in ix.fns:
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        bad = None
        for p, d in pairs:
            if not mutable_value(d):
                continue
            SEEN.clear()
            SEEN.add((f.full, p.arg))
            e = escapes(ix, f, p.arg)
            if e:
                bad = (e[0], 'the default of %s is made once and is %s' % (p.arg, e[1]))
        r.fact('defaults of %s are not shared between calls' % f.full, bad is None, '%s:%d (%s)' % (f.mod.rel, bad[0], f.node.name) if bad else f.where, bad[1] if bad else '', how='effects on default arguments')


def process_state(r, ix):
    for m in ix.prog.modules.values():
        skip = main_guard(m)
        bad = []
        for n in ast.walk(m.tree):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Call):
                p = ix.path(m, n.func)
                if p in GLOBAL_EFFECTS:
                    bad.append((n.lineno, GLOBAL_EFFECTS[p]))
                elif p and (p.startswith('sys.path.') or p.startswith('os.environ.')) and p.rsplit('.', 1)[1] in MUTATORS:
                    bad.append((n.lineno, 'changes %s of the process' % p.rsplit('.', 1)[0]))
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(getattr(n, 'ctx', None), ast.Store):
                p = ix.path(m, n.value)
                if p and not p.startswith('rainbow') and p.split('.')[0] in ('os', 'sys', 'numpy', 'scipy', 'random', 'warnings', 'logging', 'builtins'):
                    if root_name(n) in ix.imports[m.name] and root_name(n) not in ix.top[m.name]:
                        bad.append((n.lineno, 'changes %s for the whole process' % p))
        r.fact('%s leaves the state of the process alone' % m.name, not bad, '%s:%d' % (m.rel, bad[0][0]) if bad else m.rel, '; '.join(w for _, w in bad), how='calls and stores')


def call_graph(ix):
    edges = {}
    for f in ix.fns:
        out = set()
        loc, _ = locals_of(f.node)
        for n in own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                g = ix.full.get(f.full + '.' + n.id)
                if g:
                    out.add(g.full)
                if n.id not in loc:
                    p = ix.path(f, n)
                    out |= target(ix, p)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = dotted(n)
                p = ix.path(f, n) if d and d[0] not in loc else None
                t = target(ix, p)
                if t:
                    out |= t
                elif p is None or p.startswith('rainbow'):
                    # a method (or property) of some object of the package
                    out |= {g.full for g in ix.by_name.get(n.attr, []) if g.cls is not None}
        edges[f.full] = out
    return edges


def target(ix, p):
    if not p:
        return set()
    if p in ix.full:
        return {p}
    if p in ix.classes:
        return {x for x in (p + '.__init__', p + '.__new__', p + '.__post_init__') if x in ix.full}
    # re-exported names
    mod, _, nm = p.rpartition('.')
    if mod in ix.imports and nm in ix.imports[mod] and ix.imports[mod][nm] != p:
        return target(ix, ix.imports[mod][nm])
    return set()


RANDOM_BY_DESIGN = {'rainbow.math.vector3.rand', 'rainbow.math.quaternion.rand', 'rainbow.math.vector3.from_string', 'rainbow.math.quaternion.from_string',
                    'rainbow.simulators.prox_rigid_bodies.api.generate_unique_name', 'rainbow.simulators.proximal_contact.blocking.random_graph_coloring'}
# the offsets of the hash are random; which pairs are found does not depend on them (S06)
RANDOM_MODULES = ('rainbow.geometry.spatial_hashing', 'rainbow.util.', 'rainbow.simulators.prox_rigid_bodies.scenes.')


def sources(ix, f):
    for n in own(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            p = ix.path(f, n)
            if p and p.startswith(RANDOM) and not p.startswith('rainbow'):
                yield n, p
            elif p in ('os.urandom', 'os.getpid', 'os.times'):
                yield n, p
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash') and n.func.id not in locals_of(f.node)[0] and n.func.id not in f.mod.defs:
            yield n, n.func.id + '()'


def roots(ix):
    out = []
    for f in ix.fns:
        m = f.mod.name
        if m.startswith(RANDOM_MODULES) or f.full in RANDOM_BY_DESIGN:
            continue
        if f.node.name.startswith('test_'):
            continue
        pub = not f.node.name.startswith('_') or f.node.name in ('__init__', '__call__')
        if pub and (m.startswith(('rainbow.math.', 'rainbow.geometry.')) or m.endswith('.api') or '.simulators.' in m):
            out.append(f.full)
    return out


def randomness(r, ix):
    """results of deterministic entry points depend on nothing but their inputs"""
    edges = call_graph(ix)
    src = {}
    for f in ix.fns:
        if f.mod.name.startswith(RANDOM_MODULES):
            continue
        s = list(sources(ix, f))
        if s:
            src[f.full] = s
    # helpers only reached from the random functions are theirs
    callers = {}
    for a, bs in edges.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)

    def by_design(q, seen=()):
        if q in RANDOM_BY_DESIGN or q.startswith(RANDOM_MODULES):
            return True
        cs = callers.get(q, set()) - {q}
        return bool(cs) and q not in seen and all(by_design(c, seen + (q,)) for c in cs)
    n = 0
    for root in roots(ix):
        if by_design(root):
            continue
        seen, stack, hit = {root: None}, [root], None
        while stack and hit is None:
            q = stack.pop()
            if q in src or (q in RANDOM_BY_DESIGN):
                hit = q
                break
            if q.startswith(RANDOM_MODULES):
                continue
            for b in sorted(edges.get(q, ())):
                if b not in seen:
                    seen[b] = q
                    stack.append(b)
        n += 1
        if hit is None:
            r.fact('%s draws no random numbers' % root, True, ix.full[root].where, how='call graph')
            continue
        chain, q = [], hit
        while q is not None:
            chain.append(q)
            q = seen[q]
        s = src.get(hit)
        f = ix.full[hit]
        where = '%s:%d (%s)' % (f.mod.rel, s[0][0].lineno if s else f.node.lineno, f.node.name)
        r.fact('%s draws no random numbers' % root, False, where, 'uses %s, reached by %s' % (s[0][1] if s else 'a random function', ' > '.join(x.split('.', 1)[1] for x in chain[::-1])), how='call graph')


CLOCKED = {'elapsed', 'total', 'accumulated', 'tic', 'toc'}


def clocks(r, ix):
    """no decision depends on the clock"""
    for f in ix.fns:
        if f.mod.name.startswith('rainbow.util.') or f.full in RANDOM_BY_DESIGN:
            continue
        loc, _ = locals_of(f.node)
        timers = set()
        for n in own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                for c in ast.walk(n.value):
                    if isinstance(c, ast.Call) and (ix.path(f, c.func) or '').endswith('timer.Timer'):
                        timers.add(n.targets[0].id)
        taint = set()

        def clocked(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in taint:
                    return True
                if isinstance(x, ast.Call):
                    p = ix.path(f, x.func)
                    if p and p.startswith(CLOCK) and p not in CLOCK_OK:
                        return True
                if isinstance(x, ast.Attribute) and x.attr in CLOCKED | {'value'} and isinstance(x.value, ast.Name) and x.value.id in timers:
                    return True
            return False
        while True:
            n0 = len(taint)
            for n in own(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None and clocked(n.value):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            taint.add(t.id)
            if len(taint) == n0:
                break
        bad = None
        for n in own(f.node):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and clocked(n.test):
                bad = (n.lineno, 'a decision depends on the time taken')
            if isinstance(n, ast.Compare) and clocked(n):
                bad = bad or (n.lineno, 'a comparison depends on the time taken')
            if isinstance(n, ast.Return) and n.value is not None and clocked(n.value) and f.node.name not in ('generate_unique_name',):
                bad = bad or (n.lineno, 'the result depends on the clock')
        r.fact('no decision of %s depends on the clock' % f.full, bad is None, '%s:%d (%s)' % (f.mod.rel, bad[0], f.node.name) if bad else f.where, bad[1] if bad else '', how='dataflow')


NAMED = {'bodyA', 'bodyB', 'name', 'parent', 'child', 'bodies', 'hinges', 'shapes', 'forces', 'contact_points'}


def orders(r, ix):
    """nothing is done in the (arbitrary) order of a set of names or objects"""
    for f in ix.fns:
        sets = {}

        def set_of(e):
            """the set expression e builds a set of names or objects"""
            if isinstance(e, (ast.Set, ast.SetComp)):
                return named(e)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
                return any(named(a) for a in e.args)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                return set_of(e.left) or set_of(e.right)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return set_of(e.func.value)
            if isinstance(e, ast.Name):
                return sets.get(e.id, False)
            return False

        def named(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute) and x.attr in NAMED:
                    return True
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    return True
            return False
        for _ in range(3):
            for n in own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and set_of(n.value):
                    sets[n.targets[0].id] = True
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'set' and not n.value.args:
                    # an empty set filled later
                    v = n.targets[0].id
                    for x in own(f.node):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'update') and isinstance(x.func.value, ast.Name) and x.func.value.id == v and any(named(a) for a in x.args):
                            sets[v] = True
        bad = None
        calm = set()        # what is inside a call whose result does not depend on the order
        for n in own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'len', 'min', 'max', 'set', 'frozenset', 'any', 'all', 'dict'):
                for a in n.args:
                    calm.add(id(a))
        for n in own(f.node):
            it = None
            if id(n) in calm:
                continue
            if isinstance(n, ast.For) and set_of(n.iter):
                body = [x for s in n.body for x in ast.walk(s)]
                if any(isinstance(x, (ast.Yield, ast.Return, ast.Break)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert')) or
                       (isinstance(x, ast.AugAssign)) for x in body):
                    it = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'iter', 'zip') and n.args and any(set_of(a) for a in n.args):
                it = n
            elif isinstance(n, (ast.ListComp, ast.DictComp)) and any(set_of(g.iter) for g in n.generators):
                it = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and set_of(n.func.value):
                it = n
            if it is not None:
                bad = (it.lineno, 'works through a set of names or objects in its order, which differs from run to run')
        r.fact('%s does not depend on the order of a set' % f.full, bad is None, '%s:%d (%s)' % (f.mod.rel, bad[0], f.node.name) if bad else f.where, bad[1] if bad else '', how='dataflow')


def E02(r):
    """no hidden state, no dependence on chance, clock or hash order"""
    ix = Index(program())
    shared_state(r, ix)
    class_state(r, ix)
    defaults(r, ix)
    process_state(r, ix)
    randomness(r, ix)
    clocks(r, ix)
    orders(r, ix)
    r.count('functions', len(ix.fns))
    r.count('classes', len(ix.classes))
    r.count('modules', len(ix.prog.modules))
