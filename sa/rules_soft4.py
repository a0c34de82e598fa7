"""Soft body energies; profiling."""
import contextlib
from .lib import *
from . import lib
from .rules_soft import Scene, NODES, TETS, SO, SB, NA, sworld, stress_model, solver_model, dirichlet, Contacts, zeros, CDT
from .rules_soft import matmul as mm


def energies(sc, fixed):
    """kinetic, gravitational and elastic energy by one-point quadrature on every element of every free body"""
    kin = pot = ela = ZERO
    for k in range(len(sc.b)):
        if sc.which[k] in fixed:
            continue
        nm = sc.nm[k]
        x, u = sc.c(k, 'x'), sc.c(k, 'u')
        K = len(sc.T(k))
        rho, E, nu = (tm.sym('%s.%s' % (nm, a)) for a in ('rho', 'E', 'nu'))
        lam, mu = nu * E / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
        vol, inv, g = V(nm + '.vol0', (K,)), V(nm + '.invD0', (K, 3, 3)), V(nm + '.gravity', 3)
        for e, t in enumerate(sc.T(k)):
            v = arr([sum((u[i][c] for i in t), ZERO) / 4 for c in range(3)])
            p = arr([sum((x[i][c] for i in t), ZERO) / 4 for c in range(3)])
            m = rho * vol[e]
            kin = kin + m * dot(v, v) / 2
            pot = pot - m * dot(g, p)
            Dm = arr([[x[t[j + 1]][i] - x[t[0]][i] for j in range(3)] for i in range(3)])
            F = matmul(Dm, inv[e])
            ela = ela + vol[e] * tm.app('psi' + nm, *F.ravel(), lam, mu)
    return {'kinetic': kin, 'potential': pot, 'elastic': ela}


HK = [pos_hook('a.E', 'c.E', 'b.E'), range_hook('a.nu', .05, .45), range_hook('b.nu', .05, .45), range_hook('c.nu', .05, .45)]


def S10(r):
    """reported energies"""
    for tag, which, fixed in (('two bodies', (0, 2), ()), ('one fixed body', (2, 0), (0,)), ('three bodies', (2, 1, 0), (1,)), ('no free body', (0,), (0,)), ('no body', (), ())):
        for nm in ('kinetic', 'potential', 'elastic'):
            W = sworld(r)
            f = W.fn(SO + 'compute_%s_energy' % nm)
            with r.section('%s energy of %s' % (nm, tag), f, total=True):
                sc = Scene(W, which, fixed)
                for k in range(len(sc.b)):
                    stress_model(sc, k)
                before = {(k, a): sc.c(k, a).copy() for k in range(len(sc.b)) for a in ('x', 'u', 'gravity')}
                for flag in (FALSE, TRUE):
                    st = W.dct()
                    got = W.call(f, sc.E, st, flag)
                    r.eq('%s energy of %s%s' % (nm, tag, ', profiled' if flag is TRUE else ''), got, energies(sc, fixed)[nm], f, hooks=HK)
                for (k, a), c in before.items():
                    eqv(r, 'computing the %s energy of %s keeps %s of body %d' % (nm, tag, a, k), W, W.get(sc.b[k], a), c, f)
    # elastic energy of the elements
    W = sworld(r)
    f = W.fn(NA + 'compute_elastic_energy')
    with r.section('element energies', f, total=True):
        n = 3
        F, vol = V('F', (n, 3, 3)), V('vol', n)
        psi = Native(lambda ip, st, a, kw: tm.app('psi', *ip.cells(a[0], st).ravel(), ip.np.num(a[1], st), ip.np.num(a[2], st)), 'psi')
        lam, mu = tm.sym('lambda'), tm.sym('mu')
        r.eq('elastic energy sums volume times energy density', W.call(f, A(W, vol), A(W, F), lam, mu, psi), sum((vol[e] * tm.app('psi', *F[e].ravel(), lam, mu) for e in range(n)), ZERO), f)
    # what a profiled step logs
    for tag, which, fixed, cs in (('free', (0, 2), (), ()), ('contact with a fixed body', (0, 2), (2,), (1, 0))):
        W = sworld(r)
        f = W.fn(SO + 'SemiImplicitStepper.step')
        with r.section('logged energies (%s)' % tag, f, total=True):
            sc = Scene(W, which, fixed)
            for k in range(2):
                stress_model(sc, k)
            n3 = 3 * sc.n
            Wc = zeros(n3, n3)
            for i in range(n3):
                Wc[i, i] = tm.sym('W[%d,%d]' % (i, i))
            ct = Contacts(sc, cs)
            stp = W.ip.sym_obj(SO + 'SemiImplicitStepper', ('root', 'stepper'), W.st)
            W.ip.setattr(stp, 'W', W.ip.np.dense(Wc, W.st), W.st)
            W.ip.setattr(stp, 'log', W.ip.lst([], W.st), W.st)
            solver_model(W, [])
            W.ip.setattr(W.get(sc.E, 'params'), 'use_post_stabilization', FALSE, W.st)

            def detect(ip, st, args, kw):
                ip.setattr(args[0] if args else kw['engine'], 'contact_points', ip.lst(list(ct.objs), st), st)
                return args[1] if len(args) > 1 else kw['stats']
            W.ip.models[CDT + 'run_collision_detection'] = detect
            dt = tm.sym('dt')
            W.call(f, stp, dt, sc.E, TRUE)
            log = items(W, W.get(stp, 'log'))
            if not r.fact('a profiled step is logged once (%s)' % tag, len(log) == 1, f, '%d entries' % len(log)):
                continue
            get = lambda k: W.ip.np.getitem(log[0], k, W.st)
            want = energies(sc, fixed)
            for nm in ('kinetic', 'potential', 'elastic'):
                r.eq('logged %s energy is that of the new state (%s)' % (nm, tag), get(nm + '_energy'), want[nm], f, hooks=HK + [pos_hook('dt')], samples=6)
            r.eq('logged time step (%s)' % tag, get('dt'), dt, f)
            r.eq('logged number of contacts (%s)' % tag, get('contact_points'), lift(len(cs)), f)
            deep = ZERO
            for g in ct.g:
                deep = tm.fmax(deep, -g)
            r.eq('logged penetration (%s)' % tag, get('max_penetration'), deep, f)


@contextlib.contextmanager
def profiled():
    old = lib.PROFILING[0]
    lib.PROFILING[0] = TRUE
    try:
        yield
    finally:
        lib.PROFILING[0] = old


def R12(r):
    """every law of the simulators also holds while profiling is on"""
    from . import rules_rigid as r1, rules_rigid2 as r2, rules_rigid3 as r3, rules_soft as s1, rules_soft3 as s3, rules_prox as px
    with profiled():
        for nm, fn in (('rigid solver', r1.solver_loop), ('rigid stabilization', r2.R09), ('rigid contacts', r3.contacts), ('rigid collision detection', r3.pipeline), ('soft assembly', s1.S03),
                       ('soft contact rows', s1.S04), ('soft step', s1.S05), ('soft contacts', s3.contacts), ('soft collision detection', s3.pipeline), ('spatial hashing', s3.hashing),
                       ('contact solver', px.loop), ('contact solver', px.P02), ('contact solver', px.P03)):
            n = len(r.obs)
            fn(r)
            for o in r.obs[n:]:
                o.name = 'with profiling: ' + o.name
