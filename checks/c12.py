"""C12: sampled group elements are products of exponentials of algebra combinations and powers of discrete generators."""
import contextlib, itertools
import numpy as np
import jax
import jax.numpy as jnp
from symx import exprs as X, lra, smt, poly, jx
from symx.core import Free, GL, CheckError, RealRaise
from symx.poly import as_poly
SHARDS = {'quick': 8, 'thorough': 8}


class Draws:
    """stands for numpy's generators while the real sampling code runs: noise is given (possibly symbolic), integers are chosen
    inside the range the code asks for"""
    def __init__(self, z, pick): self.z, self.pick, self.asked = z, pick, []

    def randn(self, *shape):
        shape = tuple(int(s) for s in shape)
        self.asked.append(shape)
        n = int(np.prod(shape, dtype=int))
        return self.z(shape)

    def randint(self, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        if size is None: return int(self.pick((), 0, high - low)) + low
        size = (size,) if isinstance(size, int) else tuple(int(s) for s in size)
        return np.array(self.pick(size, low, high)).reshape(size)


@contextlib.contextmanager
def drawing(d):
    old = np.random.randn, np.random.randint
    np.random.randn, np.random.randint = d.randn, d.randint
    try: yield
    finally: np.random.randn, np.random.randint = old


def run(ctx):
    from emlp import groups as g
    gs = X.groups()
    ctx.encodes('Group.sample', 'Group.samples', 'noise2samples', 'noise2sample', 'matrix_power_simple')
    ctx.bound('all noise vectors, all invertible generator matrices of size 2-3 (thorough 2-4), integer powers -6..5, up to 3 discrete generators, batches of 1-3')
    ctx.assume('matrix exponential and matrix inverse are uninterpreted; inv(M) M = 1 by contract')
    # integer powers, both signs
    for d in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for n in range(-6, 6):
            if d > 2 and abs(n) > 4 and not ctx.thorough: continue
            ctx.identity('power %d of %dx%d' % (n, d, d), lambda M: ([g.matrix_power_simple(M, n)], [power(M, n)]), [GL('M', d)], eps=0.0, tol=1e-2)
    # one sample: every generator's power, algebra exponential, any order of generators within a round
    shapes = [(D, M, d, case) for D, M, d in ((0, 1, 2), (1, 1, 2), (2, 0, 3), (0, 2, 2), (2, 2, 2), (0, 3, 2), (1, 2, 3)) for case in range(3)]
    for D, M, d, case in shapes:
        for seed in ((0, 1) if M > 1 else (0,)):
            name = 'sample %d algebra %d discrete %dx%d case %d seed %d' % (D, M, d, d, case, seed)
            ctx.obligation(name, lambda: one(ctx, name, g, D, M, d, case, seed))
    # the method on user groups with symbolic generators, and on library groups with symbolic noise
    for N, D, M in ((1, 2, 1), (2, 1, 1), (3, 0, 2), (2, 2, 0), (2, 0, 0), (2, 2, 2)):
        name = 'samples(%d) of a user group %d+%d' % (N, D, M)
        ctx.obligation(name, lambda: batch(ctx, name, g, N, D, M))
    for nm, d in gs.items():
        if d.d > (6 if ctx.thorough else 4): continue
        ctx.obligation('library/' + nm, lambda: library(ctx, 'library/' + nm, d))
    ctx.vacuity('vacuity', lambda M: ([g.matrix_power_simple(M, 2)], [power(M, 3)]), [GL('M', 2)])


def power(M, n):
    out = jnp.eye(M.shape[-1])
    B = jnp.linalg.inv(M) if n < 0 else M
    for _ in range(abs(n)): out = out @ B
    return out


EXPM = {}


class ExpStub:
    """uninterpreted matrix exponential: equal arguments give equal results"""
    def __init__(self): self.seen, self.args = {}, []

    def __call__(self, interp, eqn, ins):
        M = jx.to_obj(ins[0])
        if M.ndim > 2:
            out = np.empty(M.shape, dtype=object)
            for i in np.ndindex(*M.shape[:-2]): out[i] = self.one(M[i])
            return out
        return self.one(M)

    def one(self, M):
        k = jx.mkey(M)
        if k not in self.seen:
            self.args.append(M)
            self.seen[k] = poly.store().array('E%d' % len(self.seen), M.shape)
        return self.seen[k]


def ks_of(case, M, K, rng):
    if case == 0: k = np.array([[(-1) ** (i + j) * (1 + (i + 2 * j) % 3) for j in range(K)] for i in range(M)])
    elif case == 1: k = np.array([[[-5, 4, 1][(i + j) % 3] if M == 1 else [-2, 0, 2][(i + j) % 3] for j in range(K)] for i in range(M)])
    else: k = rng.integers(-2, 3, (M, K))
    return k.reshape(M, K)


def orders(M, K): return itertools.product(list(itertools.permutations(range(M))), repeat=K)


def oracle(E, hs, ks, order):
    out = E
    for k, perm in enumerate(order):
        for i in perm: out = out @ power(hs[i], int(ks[i][k]))
    return out


def find_order(ctx, f, M, K, d, ks, rng):
    """which order of the generators in each round the (deterministic) shuffle produced, found on one concrete input"""
    hs = [np.eye(d) + .3 * rng.normal(size=(d, d)) for _ in range(M)]
    got = np.asarray(ctx.real(f, jnp.asarray(np.array(hs, dtype=np.float32).reshape(M, d, d))))
    best = None
    for o in orders(M, K):
        r = np.eye(d)
        for k, perm in enumerate(o):
            for i in perm: r = r @ np.linalg.matrix_power(hs[i], int(ks[i][k]))
        e = np.abs(r - got).max() / (1 + np.abs(r).max())
        if best is None or e < best[0]: best = (e, o)
    return best


def one(ctx, name, g, D, M, d, case, seed):
    rng = ctx.rng(name)
    K = 2 if M > 2 else 3
    ks = ks_of(case, M, K, rng)
    if d > 2: ks = np.clip(ks, -1, 1)      # degree of the polynomials
    ones = np.ones((M, K), int)
    e, order = find_order(ctx, lambda hs: g.noise2sample(jnp.zeros(D), jnp.asarray(ones), jnp.zeros((D, d, d)), hs, seed), M, K, d, ones, rng)
    args = [Free('z', D), Free('A', D, d, d)] + [GL('h%d' % i, d) for i in range(M)]
    stub = ExpStub()
    def f(z, A, *hs):
        H = jnp.stack(hs) if hs else jnp.zeros((0, d, d))
        return (g.noise2sample(z, jnp.asarray(ks), A, H, seed),)
    def want(z, A, *hs):
        E = jax.jit(expm, inline=False)(jnp.einsum('i,ijk->jk', z, A)) if D else jnp.eye(d)
        return (oracle(E, hs, ks, order),)
    compare(ctx, name, f, want, args, stub)


def expm(A): return jax.scipy.linalg.expm(A)


def compare(ctx, name, f, want, args, stub):
    """same polynomial in generators, inverses and uninterpreted exponentials"""
    def both(*a):
        return tuple(f(*a)) + tuple(want(*a))
    cj = ctx.trace(both, args)
    outs, arrs = ctx.symbolic(None, args, {'expm': stub}, closed=cj)
    n = len(outs) // 2
    L, R = outs[:n], outs[n:]
    if [np.shape(a) for a in L] != [np.shape(b) for b in R]: return ctx.violation(name, 'shapes %s, expected %s' % ([np.shape(a) for a in L], [np.shape(b) for b in R]))
    v, failing = smt.decide(ctx.pairs_of(L, R), eps=0.0)
    if v == 'unsat': return ctx.done(name, '%d entries' % sum(np.size(a) for a in L))
    rng = ctx.rng(name + 'c')
    for _ in range(8):
        vals = [jnp.asarray(a.concrete(rng)) for a in args]
        l, r = ctx.real(lambda: [np.asarray(q) for q in f(*vals)]), [np.asarray(q) for q in want(*vals)]
        gap = max(float(np.max(np.abs(a - b) / (1 + np.abs(b)))) for a, b in zip(l, r))
        if not gap < 1e-2: return ctx.violation(name, 'the sample is not the product of exponentials and powers (off by %.3g)' % gap, ctx.dump(args, vals))
    raise CheckError('counterexample did not reproduce (%s)' % v)


def batch(ctx, name, g, N, D, M):
    """Group.samples draws one element per row from its own noise and powers"""
    d, K = 2, 3
    rng = ctx.rng(name)
    class User(g.Group):
        def __init__(self, A, h):
            self.lie_algebra, self.discrete_generators, self.d = A, h, d
            self.is_orthogonal = self.is_permutation = False
            super().__init__()
    rows = {}
    ones = False
    def pick(size, low, high):
        if size == (): return 3
        if ones: return np.ones(size, int)
        v = rng2.integers(max(low, -3), min(high, 3), size)
        if len(size) == 3 and v.size:
            v[0, 0, 0] = low if M == 1 else -2
            v[-1, -1, -1] = high - 1 if M == 1 else 2
        rows['k'], rows['range'] = v, (low, high)
        return v
    rng2 = np.random.default_rng(5)
    def draw(A, h, z):
        nonlocal rng2
        rng2 = np.random.default_rng(5)
        with drawing(Draws(lambda s: z.reshape(s), pick)): return User(A, h).samples(N)
    args = [Free('z', N, D), Free('A', D, d, d)] + [GL('h%d' % i, d) for i in range(M)]
    # the shuffle
    ctx.real(lambda: draw(jnp.zeros((D, d, d)), jnp.stack([jnp.eye(d)] * M) if M else jnp.zeros((0, d, d)), np.zeros((N, D))))
    ks = rows.get('k')
    order = ()
    if M:
        if ks.shape[:2] != (N, M): return ctx.violation(name, 'powers drawn of shape %s' % (ks.shape,))
        K = ks.shape[2]
        if not (rows['range'][0] < 0 < rows['range'][1] - 1): return ctx.violation(name, 'powers are drawn from %s: not both signs' % (rows['range'],))
        ones = True
        order = [find_order(ctx, lambda hs: draw(jnp.zeros((D, d, d)), hs, np.zeros((N, D)))[r], M, K, d, np.ones((M, K), int), rng)[1] for r in range(N)]
        ones = False
    stack = lambda hs: jnp.stack(hs) if hs else jnp.zeros((0, d, d))
    def want(z, A, *hs):
        return (jnp.stack([oracle(expm(jnp.einsum('i,ijk->jk', z[r], A)) if D else jnp.eye(d), hs, ks[r] if M else [], order[r] if M else ()) for r in range(N)]),)
    compare(ctx, name, lambda z, A, *hs: (draw(A, stack(hs), z),), want, args, ExpStub())


def library(ctx, name, d):
    """for all noise, the exponent is in the Lie algebra and reaches all of it; discrete part by powers of its own generators"""
    from checks.c10 import matrices, coords, annihilator
    G = d.G
    A = matrices(ctx, G.lie_algebra, G.d)
    h = matrices(ctx, G.discrete_generators, G.d)
    D, M, n = len(A), len(h), d.d
    def pick(size, low, high):
        return np.zeros(size, int)
    def draw(z):
        with drawing(Draws(lambda s: z.reshape(s), pick)): return G.samples(2)
    g0 = ctx.real(lambda: draw(np.zeros((2, D))))
    if g0.shape != (2, n, n): return ctx.violation(name, 'samples of shape %s' % (g0.shape,))
    s0 = ctx.real(lambda: G.sample())
    if s0.shape != (n, n) or not np.isfinite(np.asarray(s0)).all(): return ctx.violation(name, 'sample of shape %s' % (s0.shape,))
    if D:
        stub = ExpStub()
        outs, arrs = ctx.symbolic(lambda z: (draw(z),), [Free('z', 2, D)], {'expm': stub})
        z = arrs[0]
        if len(stub.args) != 2: return ctx.violation(name, '%d exponentials for 2 samples' % len(stub.args))
        ix = {next(iter(q.t))[0]: i for i, q in enumerate(z.reshape(-1))}
        E = np.zeros((2, n * n, 2 * D), dtype=complex)
        for r in range(2):
            for i, q in enumerate(stub.args[r].reshape(-1)):
                q = as_poly(q)
                for part, c0 in ((q.real, 1), (q.imag, 1j)):
                    for m, c in part.t.items():
                        if len(m) != 1 or m[0] not in ix: raise CheckError('exponent is not linear in the noise')
                        E[r, i, ix[m[0]]] += c0 * c
        # each row depends on its own noise, stays in the algebra, and no direction of the algebra is missed
        if lra.moved(E[0][:, D:], 1e-6) is not None or lra.moved(E[1][:, :D], 1e-6) is not None: return ctx.violation(name, 'a sample depends on the noise of another row')
        cplx = np.iscomplexobj(A)
        ref = coords(np.array(d.alg).reshape(-1, n, n), cplx)
        for r in range(2):
            B = coords(E[r][:, r * D:(r + 1) * D].T.reshape(D, n, n), cplx)
            for P, Q, what in ((B, ref, 'the exponent leaves the Lie algebra'), (ref, B, 'the exponent misses a direction of the Lie algebra')):
                for row in P:
                    if annihilator(Q, row, Q.shape[1]) is not None: return ctx.violation(name, what)
        # with no discrete power, the samples are the exponentials themselves
        want = [stub.seen[jx.mkey(stub.args[r])] for r in range(2)]
        v, failing = smt.decide(ctx.pairs_of([outs[0]], [np.array(want)]), eps=0.0)
        if v != 'unsat': return ctx.violation(name, 'the sample is not the exponential (entry %s)' % (failing[0][0] if failing else '?'))
    elif lra.moved(np.asarray(g0[0]) - np.eye(n), 1e-5) is not None: return ctx.violation(name, 'zero powers do not give the identity')
    for k in range(M):       # each generator alone, both signs
        for p in (-2, 1):
            def pick1(size, low, high):
                v = np.zeros(size, int)
                if len(size) == 3: v[0, k, 1] = p
                return v
            with drawing(Draws(lambda s: np.zeros(s), pick1)): q = np.asarray(ctx.real(lambda: G.samples(2)))
            if lra.moved(q[0] - np.linalg.matrix_power(np.linalg.inv(h[k]) if p < 0 else h[k], abs(p)), 1e-4) is not None or lra.moved(q[1] - np.eye(n), 1e-5) is not None:
                return ctx.violation(name, 'power %d of generator %d gives something else' % (p, k))
    ctx.done(name, '%d directions and %d discrete generators' % (D, M))
