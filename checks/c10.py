"""C10: the generators of every library group are exactly those of the group it names."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
import z3
from symx import exprs as X, lra, smt, poly, jx
from symx.core import Free, CheckError
from symx.exprs import E
SHARDS = {'quick': 8, 'thorough': 8}
TOL = 1e-4


def run(ctx):
    from emlp import groups as g
    gs = X.groups()
    ctx.encodes('Trivial', 'SO', 'O', 'C', 'D', 'Scaling', 'Parity', 'TimeReversal', 'SO13p', 'SO13', 'O13', 'Lorentz', 'SO11p', 'O11', 'Sp', 'Z', 'S', 'SL', 'GL', 'U', 'SU', 'Cube', 'RubiksCube', 'ZksZnxZn',
                'Embed', 'SO2eR3', 'O2eR3', 'DkeR3', 'DirectProduct', 'LazyShift', 'LazyPerm', 'Rot90', 'LazyKron', 'LazyKronsum')
    mx = 8 if ctx.thorough else 5
    ctx.bound('groups of size n <= %d (Sp(m) up to m = %d); all linear combinations; words of generators of length <= 8' % (mx, 4 if ctx.thorough else 3))
    eta4, eta2 = np.diag([1., -1., -1., -1.]), np.diag([1., -1.])
    for n in range(1, mx + 1):
        cont(ctx, 'Trivial(%d)' % n, lambda: g.Trivial(n), n, [lambda M: M])
        disc(ctx, 'Trivial(%d)' % n, lambda: g.Trivial(n), lambda hs: len(hs) == 0)
        if n > 1:
            cont(ctx, 'SO(%d)' % n, lambda: g.SO(n), n, [lambda M: M + M.T])
            disc(ctx, 'SO(%d)' % n, lambda: g.SO(n), lambda hs: len(hs) == 0)
            cont(ctx, 'SL(%d)' % n, lambda: g.SL(n), n, [lambda M: np.trace(M).reshape(1)])
            disc(ctx, 'SL(%d)' % n, lambda: g.SL(n), lambda hs: len(hs) == 0)
            cont(ctx, 'S(%d)' % n, lambda: g.S(n), n, [lambda M: M])
            disc(ctx, 'S(%d)' % n, lambda: g.S(n), lambda hs: symmetric(hs, n))
        cont(ctx, 'O(%d)' % n, lambda: g.O(n), n, [lambda M: M + M.T])
        disc(ctx, 'O(%d)' % n, lambda: g.O(n), lambda hs: components(hs, np.eye(n), lambda h: (np.linalg.det(h) < 0,), 1))
        cont(ctx, 'GL(%d)' % n, lambda: g.GL(n), n, [])
        disc(ctx, 'GL(%d)' % n, lambda: g.GL(n), lambda hs: len(hs) == 0)
        cont(ctx, 'Scaling(%d)' % n, lambda: g.Scaling(n), n, [lambda M: M - M[0, 0] * np.eye(n)])
        disc(ctx, 'Scaling(%d)' % n, lambda: g.Scaling(n), lambda hs: len(hs) == 0)
        cont(ctx, 'U(%d)' % n, lambda: g.U(n), n, [lambda M: M + M.conj().T], True)
        cont(ctx, 'SU(%d)' % n, lambda: g.SU(n), n, [lambda M: M + M.conj().T, lambda M: np.trace(M).reshape(1)], True)
        disc(ctx, 'U(%d)' % n, lambda: g.U(n), lambda hs: len(hs) == 0)
        disc(ctx, 'SU(%d)' % n, lambda: g.SU(n), lambda hs: len(hs) == 0)
        disc(ctx, 'Z(%d)' % n, lambda: g.Z(n), lambda hs: cyclic_shift(hs, n))
        cont(ctx, 'Z(%d)' % n, lambda: g.Z(n), n, [lambda M: M])
        for k in (n, n + 5):
            cont(ctx, 'C(%d)' % k, lambda: g.C(k), 2, [lambda M: M])
            disc(ctx, 'C(%d)' % k, lambda: g.C(k), lambda hs: rotations(hs, k))
            cont(ctx, 'D(%d)' % k, lambda: g.D(k), 2, [lambda M: M])
            disc(ctx, 'D(%d)' % k, lambda: g.D(k), lambda hs: dihedral(hs, k))
    for m in range(1, (4 if ctx.thorough else 3) + 1):
        J = np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])
        cont(ctx, 'Sp(%d)' % m, lambda: g.Sp(m), 2 * m, [lambda M: J @ M + M.T @ J])
        disc(ctx, 'Sp(%d)' % m, lambda: g.Sp(m), lambda hs: len(hs) == 0)
    for nm, eta, want in (('SO13p', eta4, 0), ('SO13', eta4, 1), ('O13', eta4, 2), ('Lorentz', eta4, 2), ('SO11p', eta2, 0), ('O11', eta2, 2)):
        cont(ctx, nm, getattr(g, nm), len(eta), [lambda M: eta @ M + M.T @ eta])
        sig = (lambda h: (h[0, 0] < 0,)) if want == 1 else (lambda h: (np.linalg.det(h) < 0, h[0, 0] < 0))
        def ok(hs, eta=eta, want=want, sig=sig):
            if want == 0: return len(hs) == 0
            if want == 1 and any(np.linalg.det(h) < 0 for h in hs): return False
            return components(hs, eta, sig, want)
        disc(ctx, nm, getattr(g, nm), ok)
    disc(ctx, 'Parity', g.Parity, lambda hs: len(hs) == 1 and np.array_equal(hs[0], np.diag([1., -1, -1, -1])))
    disc(ctx, 'TimeReversal', g.TimeReversal, lambda hs: len(hs) == 1 and np.array_equal(hs[0], np.diag([-1., 1, 1, 1])))
    disc(ctx, 'Cube', g.Cube, cube)
    disc(ctx, 'RubiksCube', g.RubiksCube, rubik)
    for k, n in [(2, 2), (4, 2), (2, 3), (4, 3)] + ([(4, 4), (2, 4), (4, 5), (2, 5)] if ctx.thorough else []):
        disc(ctx, 'ZksZnxZn(%d,%d)' % (k, n), lambda: g.ZksZnxZn(k, n), lambda hs: zkznzn(hs, k, n))
    for nm, d in gs.items(): same_as_table(ctx, nm, d)
    embeddings(ctx, g)
    products(ctx, g)
    if ctx.mine('vacuity'):
        A = matrices(ctx, g.SO(4).lie_algebra, 4)[:-1]
        if lra.kernel_vector(np.concatenate([linear([lambda M: M + M.T], 4, False), A.reshape(len(A), -1)]), TOL) is None: ctx.error('vacuity', 'a missing generator was not noticed')
        elif rubik([np.eye(48)[np.r_[1, 0, 2:48]]] * 6): ctx.error('vacuity', 'a wrong cube was accepted')
        else: ctx.witness += 1


# ---- extraction by symbolic execution --------------------------------------------------
def matrices(ctx, gens, d):
    """the matrices the (possibly lazy) generators stand for: coefficients of A @ v for a symbolic vector v"""
    out = []
    for A in gens:
        from symx import subspace
        M = subspace.linear_map(ctx, A if hasattr(A, 'shape') else jnp.asarray(A), d)
        out.append(M)
    out = np.array(out).reshape(-1, d, d)
    return out if np.abs(out.imag).max(initial=0) > 0 else out.real


def linear(eqs, d, cplx):
    """the equations as a real matrix acting on the d*d (or 2*d*d) real coordinates of a matrix"""
    cols = []
    for part in ((1, 1j) if cplx else (1,)):
        for i in range(d):
            for j in range(d):
                r = np.concatenate([np.asarray(eq(part * E(d, i, j))).reshape(-1) for eq in eqs] + [np.zeros(0)])
                cols.append(np.concatenate([r.real, r.imag]) if cplx else np.asarray(r).real)
    return np.array(cols).T.reshape(-1, d * d * (2 if cplx else 1))


def coords(A, cplx):
    A = A.reshape(len(A), int(np.prod(A.shape[1:])))
    return np.concatenate([A.real, A.imag], 1) if cplx else A.real


def cont(ctx, name, make, d, eqs, cplx=False):
    """the Lie algebra is exactly the solution space of the equations, and the generators are independent"""
    def body():
        G = ctx.real(make)
        if G.d != d: return ctx.violation(name + '/algebra', 'dimension %s, expected %d' % (G.d, d))
        raw = matrices(ctx, G.lie_algebra, d)
        if not cplx and np.iscomplexobj(raw): return ctx.violation(name + '/algebra', 'complex generators')
        A, L = coords(raw, cplx), linear(eqs, d, cplx)
        algebra(ctx, name + '/algebra', A, L)
    ctx.obligation(name + '/algebra', body)


def algebra(ctx, name, A, L):
    w = lra.moved(L @ A.T, 1e-5)
    if w is not None: return ctx.violation(name, 'a combination of the generators violates the equations of the group', dict(c=w.tolist()))
    u = lra.kernel_vector(np.concatenate([L, A]), TOL)
    if u is not None: return ctx.violation(name, 'an element of the Lie algebra is orthogonal to every generator', dict(element=u.tolist()))
    c = lra.kernel_vector(A.T, TOL)
    if c is not None: return ctx.violation(name, 'the generators are linearly dependent', dict(c=c.tolist()))
    ctx.done(name, '%d generators span the solutions of %d equations' % (len(A), len(L)))


def disc(ctx, name, make, ok):
    def body():
        G = ctx.real(make)
        hs = list(matrices(ctx, G.discrete_generators, G.d))
        if not ok(hs): return ctx.violation(name + '/discrete', 'the discrete generators are not those of the group', dict(generators=[np.asarray(h).real.tolist() for h in hs]))
        ctx.done(name + '/discrete', '%d generators' % len(hs))
    ctx.obligation(name + '/discrete', body)


def same_as_table(ctx, nm, d):
    """groups, embeddings and products against the independently written table"""
    name = 'table/' + nm
    def body():
        G = ctx.real(d.make)
        if G.d != d.d: return ctx.violation(name, 'dimension %s, expected %d' % (G.d, d.d))
        raw = matrices(ctx, G.lie_algebra, d.d)
        ref = np.array(d.alg).reshape(-1, d.d, d.d)
        cplx = np.iscomplexobj(raw) or np.iscomplexobj(ref)
        A, B = coords(raw, cplx), coords(ref, cplx)
        n = d.d ** 2 * (2 if cplx else 1)
        # annihilators of one span vanish on the other, and the dimensions agree
        for P, Q, what in ((A, B, 'the algebra has a generator outside of the group'), (B, A, 'a generator is missing')):
            if not len(Q): Q = np.zeros((1, n))
            for row in P:
                u = annihilator(Q, row, n)
                if u is not None: return ctx.violation(name, what, dict(functional=u.tolist()))
        if len(A) and lra.kernel_vector(A.T, TOL) is not None: return ctx.violation(name, 'dependent generators')
        ctx.done(name, 'the spans agree')
    ctx.obligation(name, body)


def annihilator(Q, row, n):
    """a functional in the unit box vanishing on the rows of Q but not on row"""
    txt = ['(declare-const f%d Real)(assert (and (<= (- 1) f%d) (<= f%d 1)))' % (i, i, i) for i in range(n)]
    for r in Q:
        t = lra._row(r, 6, 'f')
        if t: txt.append('(assert (let ((d %s)) (and (<= (- %s) d) (<= d %s))))' % (t, smt.rat(1e-5), smt.rat(1e-5)))
    t = lra._row(row, 6, 'f')
    if t is None: return None
    txt.append('(assert (> %s %s))' % (t, smt.rat(.05)))
    return lra._solve(txt, n, 'f')


# ---- discrete groups -------------------------------------------------------------------
def as_perm(h):
    h = np.asarray(h).real
    p = np.argmax(h, axis=1)
    return p if np.array_equal(h, np.eye(len(h))[p]) else None


def word(gens, target, n, length):
    """z3: is the permutation target a product of at most `length` generators (or their inverses)?"""
    gens = [tuple(range(n))] + [tuple(map(int, p)) for p in gens] + [tuple(map(int, np.argsort(p))) for p in gens]
    gens = sorted(set(gens))
    s = z3.Solver()
    P = [[z3.Int('p%d_%d' % (t, i)) for i in range(n)] for t in range(length + 1)]
    for i in range(n): s.add(P[0][i] == i, P[length][i] == int(target[i]))
    for t in range(length):
        c = [z3.Bool('c%d_%d' % (t, k)) for k in range(len(gens))]
        s.add(z3.Or(*c))
        for k, g in enumerate(gens):
            s.add(z3.Implies(c[k], z3.And(*[P[t + 1][i] == P[t][g[i]] for i in range(n)])))
    return smt.check(s, 60000) == 'sat'


def generated(gens, targets, n, maxlen=8):
    for t in targets:
        for L in range(1, maxlen + 1):
            if word(gens, t, n, L): break
        else: return False
    return True


def symmetric(hs, n):
    ps = [as_perm(h) for h in hs]
    if any(p is None for p in ps): return False
    sw = []
    for i in range(n - 1):
        p = np.arange(n); p[i], p[i + 1] = i + 1, i
        sw.append(p)
    return generated(ps, sw, n, 10)


def cyclic_shift(hs, n):
    ps = [as_perm(h) for h in hs]
    if any(p is None for p in ps) or not ps: return False
    for p in ps:       # a translation
        s, k = z3.Solver(), z3.Int('k')
        s.add(k >= 0, k < n, *[z3.Or(i + k == int(p[i]), i + k == int(p[i]) + n) for i in range(n)])
        if smt.check(s) != 'sat': return False
    return generated(ps, [np.roll(np.arange(n), 1)], n, max(1, n // 2))


def orthogonal_to(h, eta):
    return lra.moved(h.T @ eta @ h - eta, 1e-5) is None


def is_id(M): return lra.moved(M - np.eye(len(M)), 1e-4) is None


def rotations(hs, k):
    """one rotation of order exactly k"""
    if len(hs) != 1 or np.iscomplexobj(hs[0]): return False
    r = hs[0]
    if not orthogonal_to(r, np.eye(2)) or abs(r[0, 0] - r[1, 1]) + abs(r[0, 1] + r[1, 0]) > 1e-5: return False
    P = np.eye(2)
    for j in range(1, k + 1):
        P = P @ r
        if is_id(P) != (j == k): return False
    return True


def dihedral(hs, k):
    rot = [h for h in hs if abs(h[0, 0] - h[1, 1]) + abs(h[0, 1] + h[1, 0]) < 1e-5 and (k != 1 or is_id(h))]
    ref = [h for h in hs if not any(h is q for q in rot)]
    return len(rot) == 1 and len(ref) == 1 and rotations(rot, k) and orthogonal_to(ref[0], np.eye(2)) and abs(ref[0][0, 0] + ref[0][1, 1]) < 1e-5 and is_id(ref[0] @ ref[0]) \
        and is_id(ref[0] @ rot[0] @ ref[0] @ rot[0])


def components(hs, eta, sig, dim):
    """the generators preserve the metric and reach every component (solved over GF(2))"""
    if any(np.iscomplexobj(h) or not orthogonal_to(h, eta) for h in hs): return False
    bits = [sig(h) for h in hs]
    for target in itertools.product((False, True), repeat=dim):
        s = z3.Solver()
        use = [z3.Bool('u%d' % i) for i in range(len(hs))]
        for b in range(dim):
            acc = z3.BoolVal(False)
            for u, bit in zip(use, bits):
                if bit[b]: acc = z3.Xor(acc, u)
            s.add(acc == target[b])
        if smt.check(s) != 'sat': return False
    return True


def zkznzn(hs, k, n):
    """translations and a rotation with the relations of Z_k x| (Z_n x Z_n), acting regularly (k n^2 points, transitively)"""
    ps = [as_perm(h) for h in hs]
    N = k * n * n
    if any(p is None for p in ps) or len(ps) != 3 or any(len(p) != N for p in ps): return False
    tx, ty, r = ps
    # symbolic point x: the relations hold for all of the points
    x = z3.Int('x')
    def fun(nm, p): return nm, np.asarray(p)
    def power(p, m):
        out = np.arange(N)
        for _ in range(m): out = p[out]
        return out
    def inv(p): return np.argsort(p)
    def same(a, b):
        s = z3.Solver()
        A, B = z3.Array('A', z3.IntSort(), z3.IntSort()), z3.Array('B', z3.IntSort(), z3.IntSort())
        for i in range(N): s.add(z3.Select(A, i) == int(a[i]), z3.Select(B, i) == int(b[i]))
        s.add(x >= 0, x < N, z3.Select(A, x) != z3.Select(B, x))
        return smt.check(s) == 'unsat'
    e = np.arange(N)
    conj = lambda t: r[t[inv(r)]]
    if not (same(power(tx, n), e) and same(power(ty, n), e) and same(power(r, k), e) and same(tx[ty], ty[tx])): return False
    if k == 4: rel = [(a, b) for a, b in (((ty, inv(tx))), (inv(ty), tx))]
    else: rel = [(inv(tx), inv(ty))]
    if not any(same(conj(tx), a) and same(conj(ty), b) for a, b in rel): return False
    # regular: no word of the normal form fixes a point unless trivial, decided over symbolic exponents
    a, b, c = z3.Ints('a b c')
    s = z3.Solver()
    table = {}
    for i in range(n):
        for j in range(n):
            for l in range(k): table[i, j, l] = power(tx, i)[power(ty, j)[power(r, l)]]
    s.add(a >= 0, a < n, b >= 0, b < n, c >= 0, c < k, z3.Or(a != 0, b != 0, c != 0))
    s.add(z3.Or(*[z3.And(a == i, b == j, c == l, bool((p == e).any())) for (i, j, l), p in table.items()]))
    return smt.check(s) == 'unsat'


def axis_rotation(axis):
    R = np.zeros((3, 3), dtype=int)
    i, j = (axis + 1) % 3, (axis + 2) % 3
    R[axis, axis] = 1; R[i, j] = -1; R[j, i] = 1
    return R


def cube(hs):
    """relabelling the faces turns the generators into rotations of the cube, two of them about different axes"""
    ps = [as_perm(h) for h in hs]
    if any(p is None or len(p) != 6 for p in ps): return False
    faces = [tuple(s * np.eye(3, dtype=int)[i]) for i in range(3) for s in (1, -1)]
    ix = {f: k for k, f in enumerate(faces)}
    rots, todo = {tuple(range(6)): None}, [tuple(range(6))]
    quarter = {}
    for ax in range(3):
        p = tuple(ix[tuple(axis_rotation(ax) @ np.array(f))] for f in faces)
        quarter[p] = quarter[tuple(int(q) for q in np.argsort(p))] = ax
    while todo:
        a = todo.pop()
        for q in quarter:
            b = tuple(a[i] for i in q)
            if b not in rots: rots[b] = None; todo.append(b)
    assert len(rots) == 24
    s = z3.Solver()
    F = [z3.Int('f%d' % i) for i in range(6)]
    s.add(z3.Distinct(*F), *[z3.And(f >= 0, f < 6) for f in F])
    axes = []
    for a, p in enumerate(ps):
        alts = []
        ax = z3.Int('ax%d' % a)
        axes.append(ax)
        for r in rots:
            alts.append(z3.And(ax == quarter.get(r, -1), *[z3.Implies(F[i] == v, F[int(p[i])] == r[v]) for i in range(6) for v in range(6)]))
        s.add(z3.Or(*alts))
    s.add(z3.Or(*[z3.And(axes[i] >= 0, axes[j] >= 0, axes[i] != axes[j]) for i in range(len(ps)) for j in range(i)]))
    return smt.check(s) == 'sat'


def stickers():
    out = []
    for ax in range(3):
        for s in (1, -1):
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    if a == b == 0: continue
                    pos = np.zeros(3, dtype=int)
                    pos[ax], pos[(ax + 1) % 3], pos[(ax + 2) % 3] = s, a, b
                    nrm = np.zeros(3, dtype=int); nrm[ax] = s
                    out.append((tuple(pos), tuple(nrm)))
    return out


def rubik(hs):
    """relabelling the 48 stickers turns the generators into quarter turns of the six faces of a 3x3x3 cube"""
    ps = [as_perm(h) for h in hs]
    if any(p is None or len(p) != 48 for p in ps): return False
    st = stickers()
    ix = {t: k for k, t in enumerate(st)}
    turns = []
    for ax in range(3):
        for s in (1, -1):
            R = axis_rotation(ax)
            p = [ix[(tuple(R @ np.array(pos)), tuple(R @ np.array(nrm)))] if pos[ax] == s else k for k, (pos, nrm) in enumerate(st)]
            turns += [(ax, s, p), (ax, s, [int(q) for q in np.argsort(p)])]
    s = z3.SolverFor('QF_FD')
    B = [[z3.Bool('b%d_%d' % (i, v)) for v in range(48)] for i in range(48)]
    for i in range(48):
        s.add(z3.PbEq([(q, 1) for q in B[i]], 1), z3.PbEq([(B[j][i], 1) for j in range(48)], 1))
    J = [[z3.Bool('j%d_%d' % (a, t)) for t in range(12)] for a in range(len(ps))]
    for a, p in enumerate(ps):
        s.add(z3.PbEq([(q, 1) for q in J[a]], 1))
        for t, (_, _, T) in enumerate(turns):
            for i in range(48):
                for v in range(48): s.add(z3.Or(z3.Not(J[a][t]), z3.Not(B[i][v]), B[int(p[i])][T[v]]))
    for f in range(6): s.add(z3.Or(*[J[a][t] for a in range(len(ps)) for t in (2 * f, 2 * f + 1)]))
    s.add(J[0][0])       # without loss of generality: rotations and reflections of the whole cube
    r = smt.check(s, 200000)
    if r == 'unknown': raise CheckError('solver returned unknown')
    return r == 'sat'


# ---- embeddings and products -----------------------------------------------------------
def embeddings(ctx, g):
    cases = [('SO(2)', lambda: g.SO(2), 4, slice(1, 3)), ('SO(3)', lambda: g.SO(3), 5, slice(2, None)), ('O(2)', lambda: g.O(2), 3, slice(0, None, 2)), ('SL(2)', lambda: g.SL(2), 4, slice(None, 2)),
             ('S(3)', lambda: g.S(3), 5, slice(1, 4)), ('Z(3)', lambda: g.Z(3), 6, slice(0, 6, 2)), ('D(3)', lambda: g.D(3), 3, slice(None, None, -2)), ('SU(2)', lambda: g.SU(2), 3, slice(1, None)),
             ('U(1)', lambda: g.U(1), 2, slice(-1, None)), ('SO(2)xZ(2)', lambda: g.SO(2) * g.Z(2), 5, slice(1, None)), ('SL(2) whole', lambda: g.SL(2), 2, slice(None)),
             ('Embed', lambda: g.Embed(g.SO(2), 3, slice(1, None)), 5, slice(2, None)), ('Sp(1)', lambda: g.Sp(1), 5, slice(3, 5)), ('O13', lambda: g.O13(), 6, slice(1, 5))]
    for nm, mk, d, sl in cases:
        name = 'embed/%s in R%d %s' % (nm, d, sl)
        def body(mk=mk, d=d, sl=sl, name=name):
            G = mk()
            H = ctx.real(lambda: g.Embed(G, d, sl))
            idx = list(range(d))[sl]
            A, h = matrices(ctx, G.lie_algebra, G.d), matrices(ctx, G.discrete_generators, G.d)
            A2, h2 = matrices(ctx, H.lie_algebra, d), matrices(ctx, H.discrete_generators, d)
            compare(ctx, name, H, d, A2, X.emb(A, d, idx, True) if not np.iscomplexobj(A) else [embc(a, d, idx) for a in A], h2, X.emb(h, d, idx, False))
        ctx.obligation(name, body)


def embc(a, d, idx):
    M = np.zeros((d, d), dtype=complex)
    M[np.ix_(idx, idx)] = a
    return M


def products(ctx, g):
    mk = [('SO(2)', lambda: g.SO(2)), ('S(3)', lambda: g.S(3)), ('SL(2)', lambda: g.SL(2)), ('O(2)', lambda: g.O(2)), ('Z(2)', lambda: g.Z(2)), ('C(4)', lambda: g.C(4)), ('SO2eR3', lambda: g.SO2eR3()), ('Sp(1)', lambda: g.Sp(1))]
    for (na, a), (nb, b) in itertools.product(mk, mk):
        name = 'product/%s x %s' % (na, nb)
        def body(a=a, b=b, name=name):
            G1, G2 = a(), b()
            H = ctx.real(lambda: G1 * G2)
            d1, d2 = G1.d, G2.d
            A = [np.kron(M, np.eye(d2)) for M in matrices(ctx, G1.lie_algebra, d1)] + [np.kron(np.eye(d1), M) for M in matrices(ctx, G2.lie_algebra, d2)]
            h = [np.kron(M, np.eye(d2)) for M in matrices(ctx, G1.discrete_generators, d1)] + [np.kron(np.eye(d1), M) for M in matrices(ctx, G2.discrete_generators, d2)]
            compare(ctx, name, H, d1 * d2, matrices(ctx, H.lie_algebra, d1 * d2), A, matrices(ctx, H.discrete_generators, d1 * d2), h)
        ctx.obligation(name, body)


def compare(ctx, name, H, d, A, Aref, h, href):
    if H.d != d or len(A) != len(Aref) or len(h) != len(href): return ctx.violation(name, 'dimension %s with %d and %d generators, expected %d with %d and %d' % (H.d, len(A), len(h), d, len(Aref), len(href)))
    def match(P, Q, what):
        Q = list(Q)
        for p in P:      # in any order
            for k, q in enumerate(Q):
                if lra.moved(p - q, 1e-5) is None: Q.pop(k); break
            else: return what
    bad = match(A, Aref, 'infinitesimal generators differ') or match(h, href, 'discrete generators differ')
    if bad: return ctx.violation(name, bad, dict(infinitesimal=[np.asarray(a).real.tolist() for a in A], discrete=[np.asarray(a).real.tolist() for a in h]))
    ctx.done(name, '%d + %d generators, as maps of all vectors' % (len(A), len(h)))
