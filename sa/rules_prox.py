"""Proximal contact solvers: sweeps, convergence control, blocking, proximal operators."""
from .lib import *
from .rules_soft import *
from .rules_soft import SB

PC = 'rainbow.simulators.proximal_contact.'
CLS = {'gauss_seidel': PC + 'gauss_seidel_solver.GaussSeidelSolver', 'parallel_gauss_seidel': PC + 'gauss_seidel_solver.ParallelGaussSeidelSolver',
       'parallel_jacobi': PC + 'jacobi_solver.ParallelJacobiSolver', 'parallel_jacboi_hybrid': PC + 'jacobi_solver.ParallelJacobiHybridSolver'}


def dense(W, c):
    return Mat('dense', (A(W, c),), tuple(lift(d) for d in c.shape))


def fric(ip, st, a, kw):
    a = list(a) + [kw[n] for n in ('z_s', 'z_t', 'z_tau', 'mu', 'x_n')[len(a):]]
    a = [ip.np.num(x, st) for x in a]
    return tuple(tm.app('prox', i, *a) for i in range(3))


def psolver(W, cls, K, D):
    """a solver with K contacts whose matrices, iterate, best solution and r-factors are arbitrary"""
    E = W.new(SB + 'types.Engine')
    W.ip.setattr(E, 'contact_points', W.ip.lst([lift(100 + k) for k in range(K)], W.st), W.st)
    n = 4 * K
    F = {'J': V('J', (n, D)), 'WJT': V('WJT', (D, n)), 'b': V('b', n), 'mu': V('mu', K), 'x': V('x', n), 'sol': V('sol', n), 'r': V('r', n)}
    S = W.new(cls, dense(W, F['J']), dense(W, F['WJT']), A(W, F['b']), A(W, F['mu']), Native(fric, 'prox'), E, W.dct(), profiling(), 'p_')
    return E, S, F


def put(W, S, F, names=('x', 'sol', 'r')):
    for a in names:
        W.ip.setattr(S, a, A(W, F[a]), W.st)


def colours(W, K, groups, log=None):
    """a colouring supplied by the rule"""
    def col(ip, st, a, kw):
        d = Dct(ip.lst([], st).oid)
        for c, g in groups.items():
            ip.np.setitem(d, lift(c), ip.lst([(lift(4 * k), lift(4 * k + 4)) for k in g], st), st)
        return d

    def graph(ip, st, a, kw):
        if log is not None:
            log.append((list(a), kw))
        return NObj('graph', {})
    W.ip.models[PC + 'blocking.greedy_graph_coloring'] = col
    W.ip.models[PC + 'blocking.build_contact_graph'] = graph
    W.ip.models['numba.set_num_threads'] = lambda ip, st, a, kw: None


def block(F, x, w, k, xn=None):
    """the proximal update of contact k; xn: normal impulse that bounds the friction (default: the new one)"""
    i0 = 4 * k
    z = [x[i0 + i] - F['r'][i0 + i] * (dot(F['J'][i0 + i], w) + F['b'][i0 + i]) for i in range(4)]
    n = tm.fmax(ZERO, z[0])
    a = (z[1], z[2], z[3], F['mu'][k], n if xn is None else xn)
    return [n] + [tm.app('prox', i, *a) for i in range(3)]


def P01(r):
    """one sweep of every scheme is the documented proximal update; solve returns the last accepted iterate"""
    D = 3
    for K in (1, 2, 3):
        W = world(r)
        f = W.fn(CLS['gauss_seidel'] + '.sweep')
        with r.section('Gauss-Seidel sweep, %d contacts' % K, f):
            E, S, F = psolver(W, CLS['gauss_seidel'], K, D)
            put(W, S, F)
            W.meth(S, 'sweep')
            x = list(F['x'])
            for k in range(K):
                x[4 * k:4 * k + 4] = block(F, x, matvec(F['WJT'], x), k)
            eqv(r, 'Gauss-Seidel sweep, %d contacts: every block uses the newest impulses' % K, W, W.get(S, 'x'), arr(x), f)
            eqv(r, 'Gauss-Seidel sweep, %d contacts: best solution is kept' % K, W, W.get(S, 'sol'), F['sol'], f)
            eqv(r, 'Gauss-Seidel sweep, %d contacts: r-factors are kept' % K, W, W.get(S, 'r'), F['r'], f)
            eqv(r, 'Gauss-Seidel sweep, %d contacts: right-hand side is kept' % K, W, W.get(S, 'b'), F['b'], f)
    for K, groups in ((3, {0: [0, 2], 1: [1]}), (4, {0: [1, 3], 1: [0], 2: [2]}), (2, {0: [0, 1]})):
        W = world(r)
        c = CLS['parallel_gauss_seidel']
        f = W.fn(c + '.sweep')
        tag = 'parallel Gauss-Seidel sweep, groups %s' % list(groups.values())
        with r.section(tag, f):
            E, S, F = psolver(W, c, K, D)
            put(W, S, F)
            log = []
            colours(W, K, groups, log)
            W.meth(S, 'sweep')
            x = list(F['x'])
            for g in groups.values():
                w = matvec(F['WJT'], x)
                new = {k: block(F, x, w, k) for k in g}
                for k in g:
                    x[4 * k:4 * k + 4] = new[k]
            eqv(r, tag + ': groups use the newest impulses of other groups', W, W.get(S, 'x'), arr(x), f)
            eqv(r, tag + ': best solution is kept', W, W.get(S, 'sol'), F['sol'], f)
            for a, kw in log:
                v = a + list(kw.values())
                r.fact(tag + ': contacts of the engine are coloured', W.ip.same(v[0], W.get(E, 'contact_points')), f, 'another list is coloured')
                r.fact(tag + ': contacts are coloured for the kind of simulator', len(v) > 1 and v[1] == 'soft_body', f, 'coloured for %s' % (v[1:],))
            r.fact(tag + ': a colouring is computed', len(log) > 0, f, 'no colouring')
    for cls, hybrid in (('parallel_jacobi', False), ('parallel_jacboi_hybrid', True)):
        for K in (1, 3):
            W = world(r)
            f = W.fn(CLS[cls] + '.sweep')
            tag = '%s sweep, %d contacts' % ('hybrid Jacobi' if hybrid else 'Jacobi', K)
            with r.section(tag, f):
                E, S, F = psolver(W, CLS[cls], K, D)
                put(W, S, F)
                W.meth(S, 'sweep')
                x = list(F['x'])
                w = matvec(F['WJT'], x)
                new = []
                for k in range(K):
                    new += block(F, x, w, k, None if hybrid else x[4 * k])
                eqv(r, tag + ': all blocks use the impulses before the sweep', W, W.get(S, 'x'), arr(new), f)
                eqv(r, tag + ': best solution is kept', W, W.get(S, 'sol'), F['sol'], f)
    W = world(r)
    f = W.fn(PC + 'solver_interface.SolverInterface.compute_initial_r_factor')
    with r.section('initial r-factors', f):
        E, S, F = psolver(W, CLS['gauss_seidel'], 2, D)
        W.meth(S, 'compute_initial_r_factor')
        want = []
        for i in range(8):
            d = dot(F['J'][i], F['WJT'][:, i])
            want.append(tm.ite(tm.eq0(d), lift(.1), lift(.1) / d))
        eqv(r, 'initial r-factor is a tenth of the reciprocal diagonal entry', W, W.get(S, 'r'), arr(want), f)
        zero = [tm.sym('J[%d, %d]' % (1, d)) for d in range(3)]

        def unloaded(s, a):
            return 0.0 if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('J[1,') else None
        eqv(r, 'r-factor of a row without mass is finite', W, W.get(S, 'r'), arr(want), f, hooks=[unloaded])
        for a in ('x', 'sol'):
            eqv(r, 'the iteration starts from zero impulses (%s)' % a, W, W.get(S, a), zeros(8), f)
        r.fact('iterate and best solution do not share storage', W.get(S, 'x').oid != W.get(S, 'sol').oid, f, 'sol and x are the same array')
    loop(r)
    dispatch(r)


PARAMS = ('nu_reduce', 'nu_increase', 'too_small_merit_change', 'absolute_tolerance', 'relative_tolerance')


def params(W, E, n=None):
    p = {}
    for a in PARAMS:
        p[a] = tm.sym(a)
        W.ip.setattr(W.get(E, 'params'), a, p[a], W.st)
    if n is not None:
        W.ip.setattr(W.get(E, 'params'), 'max_iterations', lift(n), W.st)
    return p


def loop_hook(s, a):
    if a.op == 'sym' and a.args[0] == 'inf':
        return 1e30
    if a.op == 'sym' and a.args[0] in ('absolute_tolerance', 'too_small_merit_change'):
        return abs(s.basic(a)) * (.2 if s.seed % 2 else .02)
    if a.op == 'sym' and a.args[0] == 'relative_tolerance':
        return min(abs(s.basic(a)) * .1, .5)
    if a.op == 'sym' and a.args[0] in ('nu_reduce', 'nu_increase', 'last'):
        return abs(s.basic(a)) + .1
    return None


def statistics(W, E, S, n):
    """the statistics a solver starts with while profiling is on"""
    if profiling() is not FALSE:
        W.ip.setattr(W.get(E, 'params'), 'max_iterations', lift(n), W.st)
        W.meth(S, 'initialize_stats', NObj('timer', {'start': Native(lambda *q: None), 'end': Native(lambda *q: None), 'elapsed': tm.sym('elapsed')}))


def maxabs(a, b):
    m = ZERO
    for x, y in zip(a, b):
        m = tm.fmax(m, tm.absval(x - y))
    return m


def loop(r):
    SI = PC + 'solver_interface.SolverInterface.'
    G = CLS['gauss_seidel']
    hk = [loop_hook]
    W = world(r)
    f = W.fn(SI + 'check_convergence')
    with r.section('convergence test', f):
        E, S, F = psolver(W, G, 1, 2)
        put(W, S, F)
        p = params(W, E)
        statistics(W, E, S, 1)
        last = tm.sym('last')
        W.ip.setattr(S, 'last_merit', last, W.st)
        got = W.ip.truth(W.meth(S, 'check_convergence'), W.st)
        m = maxabs(F['x'], F['sol'])
        r.eq('merit is the largest change since the best solution', W.get(S, 'merit'), m, f)
        r.eq('converged exactly when the merit is small or stagnates', got, tm.lt(m, p['absolute_tolerance']) | tm.lt(tm.absval(m - last), p['relative_tolerance'] * last), f, hooks=hk)
        for a in ('x', 'sol', 'r'):
            eqv(r, 'the convergence test changes nothing (%s)' % a, W, W.get(S, a), F[a], f)
    W = world(r)
    f = W.fn(SI + 'update_r_factor_and_handle_sol_state')
    with r.section('acceptance', f):
        E, S, F = psolver(W, G, 1, 2)
        put(W, S, F)
        p = params(W, E)
        statistics(W, E, S, 1)
        last, m = tm.sym('last'), tm.sym('m')
        W.ip.setattr(S, 'last_merit', last, W.st)
        W.ip.setattr(S, 'merit', m, W.st)
        W.meth(S, 'update_r_factor_and_handle_sol_state')
        bad = tm.lt(last, m)
        for i in range(4):
            y = tm.ite(bad, F['sol'][i], F['x'][i])
            r.eq('iterate is rolled back on divergence [%d]' % i, cells(W, W.get(S, 'x'))[i], y, f, hooks=hk)
            r.eq('best solution changes only without divergence [%d]' % i, cells(W, W.get(S, 'sol'))[i], y, f, hooks=hk)
            w = tm.ite(bad, p['nu_reduce'] * F['r'][i], tm.ite(tm.lt(last - m, p['too_small_merit_change']), p['nu_increase'] * F['r'][i], F['r'][i]))
            r.eq('r-factors shrink on divergence and grow on stagnation [%d]' % i, cells(W, W.get(S, 'r'))[i], w, f, hooks=hk)
        r.eq('the merit to beat is the last accepted one', W.get(S, 'last_merit'), tm.ite(bad, last, m), f, hooks=hk)
        r.fact('best solution and iterate do not share storage', W.get(S, 'x').oid != W.get(S, 'sol').oid, f, 'sol and x are the same array')
    for nm, m in (('accepting', ONE), ('rolling back', lift(3))):
        W = world(r)
        f = W.fn(SI + 'update_r_factor_and_handle_sol_state')
        with r.section('storage after ' + nm, f):
            E, S, F = psolver(W, G, 1, 2)
            put(W, S, F)
            params(W, E)
            statistics(W, E, S, 1)
            W.ip.setattr(S, 'last_merit', lift(2), W.st)
            W.ip.setattr(S, 'merit', m, W.st)
            W.meth(S, 'update_r_factor_and_handle_sol_state')
            # a sweep updates the iterate in place: the best solution stays
            x = W.get(S, 'x')
            keep = cells(W, W.get(S, 'sol')).copy()
            W.ip.np.setitem(x, lift(0), tm.sym('next'), W.st)
            eqv(r, 'sweeps after %s leave the best solution alone' % nm, W, W.get(S, 'sol'), keep, f)
    for n in (0, 1, 2, 3):
        W = world(r)
        f = W.fn(SI + 'solve')
        with r.section('solve, %d iterations' % n, f):
            E, S, F = psolver(W, G, 1, 2)
            p = params(W, E, n)
            calls = []

            def sweep(ip, st, a, kw):
                x, rf = ip.cells(ip.getattr(a[0], 'x', st), st).copy(), ip.cells(ip.getattr(a[0], 'r', st), st)
                calls.append(st.pc)
                ip.setattr(a[0], 'x', ip.arr(arr([tm.app('sweep', i, *x, *rf) for i in range(4)]), st), st)
            W.ip.models[G + '.sweep'] = sweep
            out = W.ip.np.unpack(W.meth(S, 'solve'), 2, W.st)
            got = cells(W, out[0])
            x = sol = [ZERO] * 4
            rf = []
            for i in range(4):
                d = dot(F['J'][i], F['WJT'][:, i])
                rf.append(tm.ite(tm.eq0(d), lift(.1), lift(.1) / d))
            last, run = tm.sym('inf'), TRUE
            for it in range(n):
                y = [tm.app('sweep', i, *x, *rf) for i in range(4)]
                m = maxabs(y, sol)
                go = run & ~(tm.lt(m, p['absolute_tolerance']) | tm.lt(tm.absval(m - last), p['relative_tolerance'] * last))
                bad = tm.lt(last, m)
                new = [tm.ite(bad, s, v) for s, v in zip(sol, y)]
                rf = [tm.ite(bad, p['nu_reduce'] * v, tm.ite(tm.lt(last - m, p['too_small_merit_change']), p['nu_increase'] * v, v)) for v in rf]
                sol = [tm.ite(go, v, s) for s, v in zip(sol, new)]
                x = new
                last, run = tm.ite(bad, last, m), go
            for i in range(4):
                r.eq('%d iterations: the last accepted iterate is returned [%d]' % (n, i), got[i], sol[i], f, hooks=hk, samples=60)
            r.fact('%d iterations: number of sweeps' % n, len(calls) == n, f, '%d sweeps' % len(calls))


def dispatch(r):
    f = SOLVE
    for scheme, cls in CLS.items():
        W = world(r)
        f = W.fn(SOLVE)
        with r.section('scheme %s' % scheme, f):
            E, S, F = psolver(W, CLS['gauss_seidel'], 1, 2)
            seen = []
            W.ip.models[PC + 'solver_interface.SolverInterface.solve'] = lambda ip, st, a, kw: seen.append(a[0]) or (lift(1), lift(2))
            J, M, b, mu, d = dense(W, F['J']), dense(W, F['WJT']), A(W, F['b']), A(W, F['mu']), W.dct()
            W.call(f, J, M, b, mu, Native(fric, 'prox'), E, d, profiling(), 'q_', scheme)
            if not r.fact('scheme %s runs one solver' % scheme, len(seen) == 1, f, '%d solvers' % len(seen)):
                continue
            o = seen[0]
            r.fact('scheme %s' % scheme, o.cls is W.ip.find_class(cls), f, 'class %s' % o.cls.name)
            for a, v in (('J', F['J']), ('WJT', F['WJT'])):
                eqv(r, 'scheme %s: %s' % (scheme, a), W, A(W, W.ip.np.cells_of(W.get(o, a), W.st)), v, f)
            for a in ('b', 'mu'):
                eqv(r, 'scheme %s: %s' % (scheme, a), W, W.get(o, a), F[a], f)
            r.eq('scheme %s: number of contacts' % scheme, W.get(o, 'K'), ONE, f)
            r.fact('scheme %s: engine' % scheme, W.ip.same(W.get(o, 'engine'), E), f, 'another engine')
    W = world(r)
    f = W.fn(SOLVE)
    with r.section('unknown scheme', f):
        E, S, F = psolver(W, CLS['gauss_seidel'], 1, 2)
        W.ip.models[PC + 'solver_interface.SolverInterface.solve'] = lambda ip, st, a, kw: (lift(1), lift(2))
        try:
            W.call(f, dense(W, F['J']), dense(W, F['WJT']), A(W, F['b']), A(W, F['mu']), Native(fric, 'prox'), E, W.dct(), FALSE, 'q_', 'no such scheme')
            ok = W.st.pc is FALSE
        except Dead:
            ok = True
        r.fact('an unknown scheme is rejected', ok, f, 'a solver is chosen')


def P02(r):
    """proximal operators project friction on the ball of radius mu times the normal impulse"""
    z, mu, xn = V('z', 3), tm.sym('mu'), tm.sym('xn')
    hk = [pos_hook('mu')]

    def small(s, a):
        return s.basic(a) * .05 if a.op == 'sym' and a.args[0] == 'xn' else None

    def big(s, a):
        return (abs(s.basic(a)) + .1) * 9 if a.op == 'sym' and a.args[0] == 'mu' else None
    lz = norm(z)
    for q, args in (('prox_sphere', (mu,)), ('prox_ellipsoid with equal coefficients', (mu, mu, mu))):
        W = world(r)
        f = W.fn(OPS + q.split()[0])
        with r.section(q, f):
            E = W.new(SB + 'types.Engine')
            got = W.ip.np.unpack(W.call(f, *([E] if len(args) == 3 else []), *z, *args, xn), 3, W.st)
            c = arr([W.ip.np.num(v, W.st) for v in got])
            sc = tm.ite(tm.le(lz, mu * xn), ONE, mu * xn / lz)
            for nm, h in (('', hk), (' (small normal force)', [small] + hk), (' (large friction)', [big])):
                for i in range(3):
                    # frictionless contacts have no friction
                    r.eq('%s projects on the cone%s [%d]' % (q, nm, i), c[i], tm.ite(tm.le(xn, ZERO), ZERO, z[i] * sc), f, hooks=h, care=tm.lt(ZERO, mu))
    ellipsoid(r, OPS, lambda W: W.new(SB + 'types.Engine'))
    ellipsoid_scale(r, OPS, lambda W: W.new(SB + 'types.Engine'))
    ellipsoid_root(r, OPS, lambda W: W.new(SB + 'types.Engine'))
    W = world(r)
    f = W.fn(OPS + 'prox_origin')
    with r.section('prox_origin', f):
        got = W.ip.np.unpack(W.call(f, *z, mu, xn), 3, W.st)
        for i in range(3):
            r.eq('prox_origin gives no friction [%d]' % i, W.ip.np.num(got[i], W.st), ZERO, f)


def ellipsoid(r, mod, engine):
    """the parts of the projection on an ellipsoid that do not depend on the root the iteration finds"""
    W = world(r)
    f = W.fn(mod + 'prox_ellipsoid')
    with r.section('prox_ellipsoid', f):
        E = engine(W)
        z, xn, tol = V('z', 3), tm.sym('xn'), tm.sym('tolerance')
        mu = [tm.sym('mu%d' % i) for i in range(3)]
        W.ip.setattr(W.get(E, 'params'), 'ellipsoid_tolerance', tol, W.st)
        got = W.ip.np.unpack(W.call(f, E, *z, *mu, xn), 3, W.st)
        c = arr([W.ip.np.num(v, W.st) for v in got])
        f0 = ZERO - ONE
        for i in range(3):
            f0 = f0 + (z[i] / (mu[i] * xn)) * (z[i] / (mu[i] * xn))
        hk = [pos_hook('mu0', 'mu1', 'mu2', 'tolerance')]

        def wide(s, a):
            return (abs(s.basic(a)) + .1) * 9 if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('mu') else None
        for i in range(3):
            r.eq('no normal force, no friction [%d]' % i, c[i], ZERO, f, hooks=hk, care=tm.le(xn, ZERO))
            r.eq('friction inside the ellipsoid is unchanged [%d]' % i, c[i], z[i], f, hooks=[wide, pos_hook('tolerance')], care=tm.lt(ZERO, xn) & tm.lt(f0, ZERO))
        got = W.ip.np.unpack(W.call(f, E, *z, ZERO, ZERO, ZERO, xn), 3, W.st)
        for i in range(3):
            r.eq('no friction without friction coefficients [%d]' % i, W.ip.np.num(got[i], W.st), ZERO, f)


def ellipsoid_scale(r, mod, engine):
    """any number of bisections: the point has the form of a closest point, and it does not depend on the unit of force"""
    for n in (0, 2):
        W = world(r)
        f = W.fn(mod + 'prox_ellipsoid')
        with r.section('prox_ellipsoid, %d bisections' % n, f):
            E = engine(W)
            for k, v in (('ellipsoid_tolerance', ZERO), ('ellipsoid_max_iterations', lift(n))):
                W.ip.setattr(W.get(E, 'params'), k, v, W.st)
            z, xn, k = V('z', 3), tm.sym('xn'), tm.sym('unit')
            mu = [tm.sym('mu%d' % i) for i in range(3)]
            out = []
            for u in (ONE, k):
                got = W.ip.np.unpack(W.call(f, E, *[u * x for x in z], *mu, u * xn), 3, W.st)
                out.append([W.ip.np.num(v, W.st) for v in got])
            f0 = ZERO - ONE
            for i in range(3):
                f0 = f0 + (z[i] / (mu[i] * xn)) * (z[i] / (mu[i] * xn))

            def far(s, a):
                if a.op != 'sym' or not isinstance(a.args[0], str):
                    return None
                nm = a.args[0]
                if nm.startswith('mu') or nm == 'xn':
                    return .3 + min(abs(s.basic(a)), 3)
                if nm.startswith('z['):
                    return (abs(s.basic(a)) + 1) * 9 * (1 if s.basic(a) > 0 else -1)
                if nm == 'unit':
                    return 1.5 + abs(s.basic(a))
                return None
            kw = dict(hooks=[far], care=tm.lt(ZERO, f0) & tm.lt(ZERO, xn))
            x = out[0]
            for i in range(3):
                r.eq('friction scales with the forces (%d bisections) [%d]' % (n, i), out[1][i], k * x[i], f, **kw)
                a, b = mu[i] * xn, mu[i - 1] * xn
                # x = a^2 z / (a^2 + t) for one t: the distance vector is normal to the ellipsoid
                r.eq('the way to the ellipsoid is normal to it (%d bisections) [%d]' % (n, i), a * a * (z[i] - x[i]) * x[i - 1], b * b * (z[i - 1] - x[i - 1]) * x[i], f, **kw)


def ellipsoid_root(r, mod, engine):
    """enough bisections end close to the surface of the ellipsoid"""
    W = world(r)
    f = W.fn(mod + 'prox_ellipsoid')
    with r.section('prox_ellipsoid, many bisections', f):
        E = engine(W)
        for k, v in (('ellipsoid_tolerance', ZERO), ('ellipsoid_max_iterations', lift(11))):
            W.ip.setattr(W.get(E, 'params'), k, v, W.st)
        # points (of rational length) outside the ellipsoid with half axes 2, 1 and 4 in units of the normal force
        mu, xn = [2, 1, 4], lift(.5)
        for z in ((5, 0, 0), (0, 3, 0), (0, 0, 9), (3, 6, -6), (-2, 3, 6), (4, -7, 4), (6, 2, -3)):
            got = W.ip.np.unpack(W.call(f, E, *[lift(x) for x in z], *[lift(m) for m in mu], xn), 3, W.st)
            g = ZERO - ONE
            for i in range(3):
                x = W.ip.np.num(got[i], W.st) / (lift(mu[i]) * xn)
                g = g + x * x
            r.le('the projection of %s is close to the ellipsoid' % (z,), tm.absval(g), lift(.05), f)


def P03(r):
    """contacts that share a body or node never get the same colour; every contact belongs to one colour with its own block"""
    for K in (2, 3):
        W = world(r)
        f = W.fn(PC + 'blocking.build_contact_graph')
        with r.section('graph of rigid contacts', f):
            idx = [(tm.sym('a%d' % k), tm.sym('b%d' % k)) for k in range(K)]
            cps = [NObj('cp%d' % k, {'bodyA': NObj('A%d' % k, {'idx': idx[k][0]}), 'bodyB': NObj('B%d' % k, {'idx': idx[k][1]})}) for k in range(K)]
            E = graph_edges(W, f, cps, 'rigid_body', K, r, '%d rigid contacts' % K)
            for i in range(K):
                for k in range(i):
                    sharing = FALSE
                    for a in idx[i]:
                        for b in idx[k]:
                            sharing = sharing | tm.eq0(a - b)
                    r.holds('%d rigid contacts: contacts %d and %d with a common body are neighbours' % (K, k, i), E.get((k, i), FALSE) | ~sharing, f, hooks=[small_ints])
    W = world(r)
    f = W.fn(PC + 'blocking.build_contact_graph')
    with r.section('graph of contacts between three soft bodies', f):
        # bodies of two tetrahedra without a common node; contacts of all ordered pairs of bodies, in two orders
        tets, off = ((0, 1, 2, 3), (4, 5, 6, 7)), (0, 8, 16)
        bodies = [W.new(SB + 'types.SoftBody', n) for n in 'abc']
        for k, b in enumerate(bodies):
            W.ip.setattr(b, 'T', ints(W, np.array(tets)), W.st)
            W.ip.setattr(b, 'offset', lift(off[k]), W.st)
            W.ip.setattr(b, 'idx', lift(k), W.st)
        every = [(a, b, ta, tb) for a in range(3) for b in range(3) if a != b for ta in (0, 1) for tb in (0, 1)]
        for order in (every, every[::-1]):
            cps = [W.new(SB + 'types.ContactPoint', bodies[a], bodies[b], lift(ta), lift(tb), A(W, V('oa', 4)), A(W, V('ob', 4)), A(W, V('p', 3)), A(W, arr([0, 1, 0])), tm.sym('gap')) for a, b, ta, tb in order]
            E = graph_edges(W, f, cps, 'soft_body', len(order), r, 'contacts of three bodies')
            lost = []
            for i, (a, b, ta, tb) in enumerate(order):
                for k, (c, d, tc, td) in enumerate(order[:i]):
                    if {(a, ta), (b, tb)} & {(c, tc), (d, td)} and not tm.implies(TRUE, E.get((k, i), FALSE)):
                        lost.append((order[k], order[i]))
            r.fact('contacts of three soft bodies with a common tetrahedron are neighbours', not lost, f, 'no edge between (body, body, element, element) %s and %s' % (lost[0] if lost else ('', '')))
    W = world(r)
    f = W.fn(PC + 'blocking.build_contact_graph')
    with r.section('graph of contacts with one common node', f):
        # the two tetrahedra of a body have a single node in common, the last one of one or the other
        for tets, off in ((((0, 1, 2, 3), (3, 4, 5, 6)), (0, 7)), (((6, 5, 4, 3), (0, 1, 2, 3)), (7, 0))):
            bodies = [W.new(SB + 'types.SoftBody', n) for n in 'ab']
            for k, b in enumerate(bodies):
                W.ip.setattr(b, 'T', ints(W, np.array(tets)), W.st)
                W.ip.setattr(b, 'offset', lift(off[k]), W.st)
                W.ip.setattr(b, 'idx', lift(k), W.st)
            order = [(0, 1, 0, 0), (0, 1, 1, 1), (1, 0, 0, 1), (1, 0, 1, 0)]
            cps = [W.new(SB + 'types.ContactPoint', bodies[a], bodies[b], lift(ta), lift(tb), A(W, V('oa', 4)), A(W, V('ob', 4)), A(W, V('p', 3)), A(W, arr([0, 1, 0])), tm.sym('gap')) for a, b, ta, tb in order]
            E = graph_edges(W, f, cps, 'soft_body', len(order), r, 'contacts with one common node')
            for i in range(4):
                for k in range(i):
                    r.holds('soft contacts %d and %d with a single common node are neighbours' % (k, i), E.get((k, i), FALSE), f)
        # a common node of one of the bodies only
        for side in (0, 1):
            bodies = [W.new(SB + 'types.SoftBody', n) for n in 'ab']
            T = [((0, 1, 2, 3), (4, 5, 6, 7)), ((0, 1, 2, 3), (4, 5, 6, 7))]
            T[side] = ((0, 1, 2, 3), (3, 4, 5, 6))
            for k, b in enumerate(bodies):
                W.ip.setattr(b, 'T', ints(W, np.array(T[k])), W.st)
                W.ip.setattr(b, 'offset', lift(8 * k), W.st)
                W.ip.setattr(b, 'idx', lift(k), W.st)
            order = [(0, 1, 0, 0), (0, 1, 1, 1)]
            cps = [W.new(SB + 'types.ContactPoint', bodies[a], bodies[b], lift(ta), lift(tb), A(W, V('oa', 4)), A(W, V('ob', 4)), A(W, V('p', 3)), A(W, arr([0, 1, 0])), tm.sym('gap')) for a, b, ta, tb in order]
            E = graph_edges(W, f, cps, 'soft_body', 2, r, 'contacts with one common node')
            r.holds('soft contacts with a single common node in body %s are neighbours' % 'AB'[side], E.get((0, 1), FALSE), f)
    pairs = [(0, 1, 0, 2), (0, 1, 0, 0), (1, 0, 1, 0), (1, 1, 0, 2), (0, 0, 0, 0)]
    W = world(r)
    f = W.fn(PC + 'blocking.build_contact_graph')
    with r.section('graph of soft contacts', f):
        sc = Scene(W, (0, 2))
        cps, nodes = [], []
        for k, (a, b, ta, tb) in enumerate(pairs):
            cps.append(W.new(SB + 'types.ContactPoint', sc.b[a], sc.b[b], lift(ta), lift(tb), A(W, V('oa%d' % k, 4)), A(W, V('ob%d' % k, 4)), A(W, V('p%d' % k, 3)), A(W, arr([0, 1, 0])), tm.sym('gap%d' % k)))
            nodes.append({i + sc.off[a] for i in sc.T(a)[ta]} | {i + sc.off[b] for i in sc.T(b)[tb]})
        E = graph_edges(W, f, cps, 'soft_body', len(pairs), r, 'soft contacts')
        for i in range(len(pairs)):
            for k in range(i):
                if nodes[i] & nodes[k]:
                    r.holds('soft contacts %d and %d with a common node are neighbours' % (k, i), E.get((k, i), FALSE), f)
    W = world(r)
    f = W.fn(PC + 'blocking.build_contact_graph')
    with r.section('unknown kind of body', f):
        W.ip.models['networkx.Graph'] = lambda ip, st, a, kw: NObj('G', {'add_nodes_from': Native(lambda *q: None), 'add_edge': Native(lambda *q: None)})
        try:
            W.call(f, W.ip.lst([NObj('cp', {})], W.st), 'liquid')
            ok = W.st.pc is FALSE
        except Dead:
            ok = True
        r.fact('an unknown kind of body is rejected', ok, f, 'a graph is built')
    W = world(r)
    f = W.fn(PC + 'blocking.greedy_graph_coloring')
    with r.section('blocks of the colours', f):
        C = {2: 1, 0: 0, 3: 0, 1: 2, 4: 1}

        def greedy(ip, st, a, kw):
            d = Dct(ip.lst([], st).oid)
            for k, c in C.items():
                ip.np.setitem(d, lift(k), lift(c), st)
            return d
        G = NObj('G', {})
        W.ip.models['networkx.coloring.greedy_color'] = greedy
        out = W.call(f, G)
        got = {}
        for g, kv in entries(W, W.meth(out, 'items')):
            c, L = W.ip.np.unpack(kv, 2, W.st)
            for g2, b in entries(W, L):
                if not tm.implies(TRUE, g & g2):
                    raise Unsupported('conditional block')
                got.setdefault(int(lift(c).const()), []).append(tuple(int(lift(x).const()) for x in W.ip.np.unpack(b, 2, W.st)))
        want = {}
        for k, c in C.items():
            want.setdefault(c, []).append((4 * k, 4 * k + 4))
        r.fact('every contact has its block in the group of its colour', {c: sorted(v) for c, v in got.items()} == {c: sorted(v) for c, v in want.items()}, f, 'groups %s' % got)


def small_ints(s, a):
    if a.op == 'sym':
        return float(round(s.basic(a) * 2) % 4)
    return None


def graph_edges(W, f, cps, kind, K, r, tag):
    edges, nodes = {}, []

    def edge(ip, st, a, kw):
        i, k = sorted(int(lift(x).const()) for x in a[:2])
        edges[i, k] = edges.get((i, k), FALSE) | st.pc

    def many(ip, st, a, kw):
        for e in ip.np.iterate(a[0], st):
            i, k = sorted(int(lift(x).const()) for x in ip.np.unpack(e[2], 2, st))
            edges[i, k] = edges.get((i, k), FALSE) | (st.pc & e[1])

    def node(ip, st, a, kw):
        for e in ip.np.iterate(a[0], st):
            nodes.append(int(lift(e[2]).const()))
    W.ip.models['networkx.Graph'] = lambda ip, st, a, kw: NObj('G', {'add_nodes_from': Native(node), 'add_edge': Native(edge), 'add_edges_from': Native(many), 'add_node': Native(lambda ip, st, a, kw: nodes.append(int(lift(a[0]).const())))})
    W.call(f, W.ip.lst(cps, W.st), kind)
    r.fact('%s: every contact is a vertex' % tag, sorted(set(nodes)) == list(range(K)), f, 'vertices %s' % nodes)
    return edges


def entries(W, L):
    out = []
    for seg in W.ip.np.iterate(L, W.st):
        if seg[0] != 'c':
            raise Unsupported('collection of unknown content')
        out.append((seg[1], seg[2]))
    return out
