"""Polynomials, polar decomposition, principal directions."""
import itertools
import math
from .lib import *
from .rules_soft import ints

PO = 'rainbow.math.polynomial.'
M3 = 'rainbow.math.matrix3.'
FU = 'rainbow.math.functions.'
V3 = 'rainbow.math.vector3.'


def M07(r):
    """two dimensional polynomials: complete monomial basis, evaluation, interpolation, differentiation"""
    basis(r)
    evaluation(r)
    interpolation(r)
    derivatives(r)


def powers_of(W, p):
    c = cells(W, p)
    return [tuple(int(x.const()) for x in row) for row in c]


def monomial(x, y, p):
    return tm.power(x, p[0]) * tm.power(y, p[1])


def basis(r):
    for d in (1, 2, 3):
        for n in range(5):
            W = world(r)
            f = W.fn(PO + 'Helpers.number_of_monomial_terms')
            with r.section('number of terms %d,%d' % (d, n), f, total=True):
                r.eq('number of monomials of order %d in %d dimensions' % (n, d), W.call(f, lift(d), lift(n)), lift(math.comb(n + d, d)), f)
    for n in range(5):
        W = world(r)
        f = W.fn(PO + 'Helpers.poly2_make_monomial_powers')
        with r.section('powers %d' % n, f, total=True):
            p = powers_of(W, W.call(f, lift(n)))
            want = [(i, j) for i in range(n + 1) for j in range(n + 1 - i)]
            r.fact('every monomial of order at most %d occurs exactly once' % n, sorted(p) == sorted(want), f, 'powers %s' % p)
    for q, a in (('Helpers.number_of_monomial_terms', (4, 2)), ('Helpers.number_of_monomial_terms', (0, 2)), ('Helpers.number_of_monomial_terms', (2, -1)), ('Helpers.poly2_make_monomial_powers', (-1,)),
                 ('Poly', (1, 2)), ('Poly', (3, 2)), ('Poly', (4, 2))):
        W = world(r)
        f = W.fn(PO + (q if q != 'Poly' else 'Poly.__init__'))
        with r.section('reject %s %s' % (q, a), f):
            try:
                if q == 'Poly':
                    W.new(PO + q, *[lift(i) for i in a])
                else:
                    W.call(f, *[lift(i) for i in a])
                ok = False
            except Dead:
                ok = True
            r.fact('%s%s is rejected' % (q.split('.')[-1], a), ok, f, 'accepted')


def make(W, n, name='a'):
    p = W.new(PO + 'Poly', lift(2), lift(n))
    k = (n + 1) * (n + 2) // 2
    a = V(name, k)
    W.ip.setattr(p, 'coefficients', A(W, a), W.st)
    return p, a


def value(W, p, a, x):
    return sum((c * monomial(x[0], x[1], m) for c, m in zip(a, powers_of(W, W.get(p, 'powers')))), ZERO)


def evaluation(r):
    for n in range(5):
        W = world(r)
        f = W.fn(PO + 'evaluate')
        with r.section('evaluate %d' % n, f, total=True):
            p, a = make(W, n)
            pw = powers_of(W, W.get(p, 'powers'))
            r.fact('a polynomial of order %d has one coefficient for every monomial' % n, sorted(pw) == sorted((i, j) for i in range(n + 1) for j in range(n + 1 - i)), f, 'powers %s' % pw)
            r.eq('dimension', W.get(p, 'dimension'), lift(2), f)
            r.eq('order', W.get(p, 'order'), lift(n), f)
            r.eq('terms', W.get(p, 'terms'), lift(len(a)), f)
            x = V('x', 2)
            r.eq('value of a polynomial of order %d' % n, W.call(f, p, A(W, x)), value(W, p, a, x), f)
            r.eq('calling a polynomial of order %d evaluates it' % n, W.ip.call(p, [A(W, x)], {}, W.st), value(W, p, a, x), f)
            eqv(r, 'evaluation keeps the coefficients (%d)' % n, W, W.get(p, 'coefficients'), a, f)
    for m in (1, 3):
        W = world(r)
        f = W.fn(PO + 'evaluate')
        with r.section('point of dimension %d' % m, f):
            p, a = make(W, 1)
            try:
                W.call(f, p, A(W, V('x', m)))
                ok = False
            except Dead:
                ok = True
            r.fact('points of dimension %d are rejected' % m, ok, f, 'accepted')


def interpolation(r):
    f0 = PO + 'interpolate'
    for n, extra, cols in ((1, 0, None), (1, 2, None), (2, 0, None), (2, 1, 2), (3, 0, 1), (1, 1, 3)):
        k = (n + 1) * (n + 2) // 2
        tag = 'order %d, %d points, %s' % (n, k + extra, 'one value each' if cols is None else '%d values each' % cols)
        W = world(r)
        f = W.fn(f0)
        with r.section('interpolate ' + tag, f, total=True):
            seen = []
            a = V('a', (k,) if cols is None else (k, cols))

            def solve(ip, st, args, kw):
                seen.append((ip.cells(args[0], st).copy(), ip.cells(args[1], st).copy()))
                return ip.arr(a, st)
            for nm in ('scipy.linalg.solve', 'numpy.linalg.solve'):
                W.ip.models[nm] = solve
            x = V('x', (k + extra, 2))
            v = V('v', (k + extra,) if cols is None else (k + extra, cols))
            ps = items(W, W.call(f, lift(n), A(W, x), A(W, v)))
            r.fact('one polynomial for every column of values (%s)' % tag, len(ps) == (cols or 1), f, '%d polynomials' % len(ps))
            if len(seen) != 1:
                r.undecided('linear system ' + tag, f, '%d linear solves' % len(seen))
                continue
            M, b = seen[0]
            r.fact('as many conditions as coefficients (%s)' % tag, M.shape == (k, k) and b.shape == a.shape, f, 'system of shape %s, %s' % (M.shape, b.shape))
            for c, p in enumerate(ps):
                ac = a if cols is None else a[:, c]
                for i in range(k):
                    # the linear system says: value of the polynomial at point i = value i
                    r.eq('polynomial %d takes the value given at point %d (%s)' % (c, i, tag), dot(M[i], ac) - (b[i] if cols is None else b[i, c]),
                         W.call(W.fn(PO + 'evaluate'), p, A(W, x[i])) - (v[i] if cols is None else v[i, c]), f)
            eqv(r, 'interpolation keeps the values (%s)' % tag, W, A(W, v), v, f)
    bad = [(1, 2, 3, 2, 'too few points'), (1, 3, 2, 2, 'too few values'), (0, 3, 3, 2, 'order zero'), (-1, 3, 3, 2, 'negative order'), (1, 4, 4, 4, 'four dimensions')]
    for n, k, kv, d, nm in bad:
        W = world(r)
        f = W.fn(f0)
        with r.section('interpolate ' + nm, f):
            for s in ('scipy.linalg.solve', 'numpy.linalg.solve'):
                W.ip.models[s] = lambda ip, st, a, kw: ip.arr(V('a', 3), st)
            try:
                W.call(f, lift(n), A(W, V('x', (k, d))), A(W, V('v', kv)))
                ok = False
            except Dead:
                ok = True
            r.fact('interpolation rejects %s' % nm, ok, f, 'accepted')
    # the system matrix on its own
    for n in (1, 2, 3):
        W = world(r)
        f = W.fn(PO + 'Helpers.make_vandermonde_matrix')
        with r.section('vandermonde %d' % n, f, total=True):
            k = (n + 1) * (n + 2) // 2
            x = V('x', (k, 2))
            M = cells(W, W.call(f, lift(n), A(W, x)))
            pw = powers_of(W, W.call(W.fn(PO + 'Helpers.poly2_make_monomial_powers'), lift(n)))
            eqv(r, 'generalized Vandermonde matrix of order %d' % n, W, A(W, M), arr([[monomial(p[0], p[1], m) for m in pw] for p in x]), f)


def derivatives(r):
    for n in range(5):
        W = world(r)
        f = W.fn(PO + 'derivative')
        with r.section('derivative %d' % n, f, total=True):
            p, a = make(W, n)
            pw = powers_of(W, W.get(p, 'powers'))
            x = V('x', 2)
            ds = items(W, W.call(f, p))
            r.fact('one derivative for every coordinate (%d)' % n, len(ds) == 2, f, '%d' % len(ds))
            P = value(W, p, a, x)
            for d, dp in enumerate(ds):
                r.eq('derivative %d of a polynomial of order %d' % (d, n), W.call(W.fn(PO + 'evaluate'), dp, A(W, x)), D(P, x[d]), f)
                for e, q in enumerate(items(W, W.call(f, dp))):
                    r.eq('second derivative %d%d of a polynomial of order %d' % (d, e, n), W.call(W.fn(PO + 'evaluate'), q, A(W, x)), D(D(P, x[d]), x[e]), f)
            r.fact('differentiation keeps the polynomial (%d)' % n, powers_of(W, W.get(p, 'powers')) == pw, f, 'powers changed')
            eqv(r, 'differentiation keeps the coefficients (%d)' % n, W, W.get(p, 'coefficients'), a, f)


def M08(r):
    """polar decomposition, principal directions, sinc, norms of one module"""
    polar(r)
    principal(r)
    sinc(r)


def polar(r):
    for batch in (0, 1, 2):
        name = 'polar_decomposition_array' if batch else 'polar_decomposition'
        W = world(r)
        f = W.fn(M3 + name)
        tag = '%s%s' % (name, ' of %d' % batch if batch else '')
        with r.section(tag, f, total=True):
            n = max(batch, 1)
            As = V('A', (n, 3, 3))
            d = V('d', (n, 3))
            U = np.array([qmat(V('q%d' % i, 4)) for i in range(n)], dtype=object)
            seen = []

            def eigh(ip, st, a, kw):
                c = ip.cells(a[0], st)
                seen.append(c.copy())
                if c.ndim == 3:
                    return (ip.arr(d, st), ip.arr(U, st))
                i = len(seen) - 1
                return (ip.arr(d[i], st), ip.arr(U[i], st))
            W.ip.models['numpy.linalg.eigh'] = eigh
            W.ip.models['scipy.linalg.eigh'] = eigh
            inverted = []

            def inverse(ip, st, a, kw):
                c = ip.cells(a[0], st)
                inverted.append(c.copy())
                if c.ndim == 3:
                    return ip.arr(V('Si', c.shape), st)
                return ip.arr(V('Si', (n, 3, 3))[len(inverted) - 1], st)
            W.ip.models['numpy.linalg.inv'] = inverse
            kw = dict(hooks=[unit_hook(*['q%d' % i for i in range(n)]), pos_hook(*['d[%d,%d]' % (i, j) for i in range(n) for j in range(3)])] + [pos_hook('d[%d, %d]' % (i, j)) for i in range(n) for j in range(3)])
            R, S = items(W, W.call(f, A(W, As if batch else As[0])))
            R, S = cells(W, R), cells(W, S)
            if not batch:
                R, S = R[None], S[None]
            if len(seen) not in (1, n):
                r.undecided('eigenvalues ' + tag, f, '%d eigenvalue problems' % len(seen))
                continue
            E = seen[0] if seen[0].ndim == 3 else np.array(seen, dtype=object)
            for i in range(n):
                at = '(%s, %d)' % (tag, i)
                eqv(r, 'eigenvalues are those of A^T A %s' % at, W, A(W, E[i]), matmul(As[i].T, As[i]), f)
                want = arr([[sum((U[i][a, k] * tm.sqrt(d[i, k]) * U[i][b, k] for k in range(3)), ZERO) for b in range(3)] for a in range(3)])
                eqv(r, 'stretch is the square root of A^T A %s' % at, W, A(W, S[i]), want, f, **kw)
                if inverted:
                    I = inverted[0][i] if inverted[0].ndim == 3 else inverted[i]
                    Si = V('Si', (n, 3, 3))[i]
                    eqv(r, 'the inverse is that of the stretch %s' % at, W, A(W, I), want, f, **kw)
                    eqv(r, 'rotation is A times the inverse stretch %s' % at, W, A(W, R[i]), matmul(As[i], Si), f, **kw)
                else:
                    eqv(r, 'rotation times stretch is A %s' % at, W, A(W, matmul(R[i], S[i])), As[i], f, **kw)
            eqv(r, 'decomposition keeps A (%s)' % tag, W, A(W, As), As, f)
            for i in range(n):
                for j in range(3):
                    r.holds('only matrices without zero eigenvalue are decomposed (%s, %d, %d)' % (tag, i, j), tm.lt(ZERO, d[i, j]), f, care=W.st.pc)
            r.holds('every matrix of full rank is decomposed (%s)' % tag, W.st.pc, f, care=tm.conj(*[tm.lt(ZERO, x) for x in d.ravel()]) if hasattr(tm, 'conj') else allpos(d.ravel()))


def allpos(xs):
    c = TRUE
    for x in xs:
        c = c & tm.lt(ZERO, x)
    return c


def principal(r):
    n = 5
    P = V('p', (n, 3))
    mean = arr([sum((P[i, c] for i in range(n)), ZERO) / n for c in range(3)])
    cov = arr([[sum(((P[i, a] - mean[a]) * (P[i, b] - mean[b]) for i in range(n)), ZERO) / (n - 1) for b in range(3)] for a in range(3)])
    f0 = FU + 'PCA'
    for d in itertools.permutations((1, 2, 4)):
        W = world(r)
        f = W.fn(f0)
        with r.section('principal directions %s' % (d,), f, total=True):
            U = V('U', (3, 3))
            seen = []

            def eig(ip, st, a, kw):
                seen.append(ip.cells(a[0], st).copy())
                return (ip.arr(arr(list(d)), st), ip.arr(U, st))

            def eigh(ip, st, a, kw):
                seen.append(ip.cells(a[0], st).copy())
                o = sorted(range(3), key=lambda i: d[i])
                return (ip.arr(arr([d[i] for i in o]), st), ip.arr(U[:, o], st))
            W.ip.models['numpy.linalg.eig'] = eig
            W.ip.models['numpy.linalg.eigh'] = eigh
            g = W.fn(FU + 'direction_of_most_variance')
            big = d.index(4)
            eqv(r, 'direction of most variance %s' % (d,), W, W.call(g, A(W, P)), U[:, big], g)
            m, val, vec = items(W, W.call(f, A(W, P)))
            eqv(r, 'mean %s' % (d,), W, m, mean, f)
            vals, vecs = cells(W, val), cells(W, vec)
            for j in range(3):
                k = int(vals[j].const())
                eqv(r, 'eigenvalue %d has its eigenvector %s' % (k, d), W, A(W, vecs[:, j]), U[:, d.index(k)], f)
            for c in seen:
                eqv(r, 'eigenvalues are those of the covariance %s' % (d,), W, A(W, c), cov, f)
            eqv(r, 'points are kept %s' % (d,), W, A(W, P), P, f)


def sinc(r):
    W = world(r)
    f = W.fn(FU + 'sinc')
    with r.section('sinc', f, total=True):
        x = tm.sym('x')
        y = W.call(f, x)
        y = y if isinstance(y, T) else cells(W, y).reshape(-1)[0]

        def at(v):
            def hk(s, a):
                return v if a.op == 'sym' and a.args[0] == 'x' else None
            return hk
        for v in (0.0, 1e-9, -3e-7, 2e-5, 9e-5, -9.9e-5, 1.01e-4, 2e-4, -1e-3, 4e-3, 0.1, 0.5, -1.0, 2.0, 3.0, 7.0, -20.0):
            s = tm.Sample(1, hooks=[at(v)])
            got = s.T(y)
            want = math.sin(v) / v if v else 1.0
            r.fact('sinc at %g' % v, abs(got - want) < 1e-13, f, 'is %r instead of %r' % (got, want))
        r.eq('sinc is sin(x)/x away from zero', y, tm.fun('sin', x) / x, f, care=tm.lt(tm.lift(1) / 100, x))
