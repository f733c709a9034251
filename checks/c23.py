"""C23: the constraint matrix vanishes exactly on the invariant vectors; the equivariance error measures |W rho_in(g) - rho_out(g) W|."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Orth, Free, CheckError
from symx import exprs as X, lra, subspace as S, smt, poly
SHARDS = {'quick': 8, 'thorough': 8}


def singles(gs, thorough, maxn, seed):
    out = []
    for name, e, o in X.solvable(gs, thorough, seed, maxn, 60 if thorough else 20):
        if o is None and len(X.gnames(e)) == 1 and knows_group(e, gs): out.append((name, e))
    return out


def knows_group(e, gs):
    """sums are solved block by block and have no constraint matrix of their own"""
    try: return getattr(X.build(e, gs), 'G', None) is not None
    except Exception: return True


def run(ctx):
    gs = X.groups()
    ctx.encodes('Rep.constraint_matrix', 'ConcatLazy._matmat', 'ConcatLazy._rmatmat', 'ConcatLazy.to_dense', 'equivariance_error', 'scale_adjusted_rel_error', 'rho_dense')
    maxn = 40 if ctx.thorough else 24
    ctx.bound('all vectors in [-1,1]; bases, duals, tensor products and user representations of one group, of dimension <= %d over %d groups; equivariance errors of all W and 5 free group matrices of dimension 2-3' % (maxn, len(gs)))
    ctx.assume('exact real arithmetic; sqrt(x)^2 = x, |x|^2 = x^2; max uninterpreted; generators written down independently of the library')
    for i, (name, e) in enumerate(singles(gs, ctx.thorough, maxn, ctx.seed)):
        ctx.obligation('kernel/' + name, lambda e=e, name=name: kernel(ctx, 'kernel/' + name, e, gs))
        if i % 2 == 0 or ctx.thorough: consistent(ctx, 'forms/' + name, e, gs)
    for g in ('SL2', 'SO2', 'S3', 'Shear') + (('Z3', 'O3', 'SL3', 'Sp1', 'SO11p') if ctx.thorough else ()):
        v, d, s = X.V(g), X.D(X.V(g)), X.Sc
        P = [(v, v), (X.plus(v, s), v), (s, v), (v, X.n(2, s)), (d, v), (v, X.pw(v, 2))] if gs[g].d == 2 else [(v, v), (s, v)]
        for k, (ei, eo) in enumerate(P):
            if X.size(ei, gs) * X.size(eo, gs) > (12 if ctx.thorough else 9): continue
            for form in ('matrix', 'vector', 'basis'):
                if not ctx.thorough and (k + len(form)) % 2 and form != 'matrix' or gs[g].d > 2 and form == 'basis': continue
                error(ctx, 'error/%s/%s -> %s/%s' % (g, X.show(ei), X.show(eo), form), g, ei, eo, form, gs)
    def wrong(W, M):
        return [(W @ M - M @ W).reshape(-1)], [(W @ M - M @ W.T).reshape(-1)]
    ctx.vacuity('vacuity', wrong, [Free('W', 2, 2), GL('M', 2)])


def dense(C): return C.to_dense() if hasattr(C, 'to_dense') else C


def kernel(ctx, name, e, gs):
    C = ctx.real(lambda: X.build(e, gs).constraint_matrix())
    N = X.size(e, gs)
    if C.shape[1] != N: return ctx.violation(name, 'constraints of shape %s for a representation of dimension %d' % (C.shape, N))
    M = S.linear_map(ctx, C, N)
    K = S.constraint_matrix(e, gs)
    for A, B, what in ((M, K, 'satisfies the constraint matrix and is not invariant'), (K, M, 'is invariant and does not satisfy the constraint matrix')):
        w = lra.separates(A, B)
        if w is not None:
            w = w if len(w) == N else w[:N] + 1j * w[N:]
            real = np.asarray(dense(C)) @ w
            r, k = np.abs(real).max(initial=0), np.abs(K @ w).max(initial=0)
            if (r <= 1e-3) == (k <= 1e-3): raise CheckError('the vector does not reproduce on the real matrix (%.2g, %.2g)' % (r, k))
            return ctx.violation(name, 'the vector %s %s' % (np.round(w, 3).tolist(), what), values={'v': np.round(w, 6).tolist()})
    ctx.done(name, 'dimension %d, %d constraints' % (N, len(M)))


def consistent(ctx, name, e, gs):
    if not ctx.mine(name): return
    try: C = X.build(e, gs).constraint_matrix()
    except Exception: return        # reported above
    m, N = C.shape
    D = jnp.asarray(dense(C))
    def f(v, V, u):
        Y = jnp.stack([D @ V[:, 0], D @ V[:, 1]], axis=1)
        return [C @ v, C @ V, C.T @ u, C.H @ u], [D @ v, Y, D.T @ u, D.conj().T @ u]
    ctx._guard(name, f, [Free('v', N), Free('V', N, 2), Free('u', m)], eps=1e-3)


def error(ctx, name, g, ei, eo, form, gs):
    if not ctx.mine(name): return
    from emlp.reps.representation import equivariance_error
    try:
        with jax.ensure_compile_time_eval(): G = gs[g].make()
    except Exception: return
    ni, no, d = X.size(ei, gs), X.size(eo, gs), gs[g].d
    r = 2 if form == 'basis' else 1
    shape = dict(matrix=(no, ni), vector=(no * ni,), basis=(no * ni, r))[form]
    k = [5]
    def count(N):
        k[0] = N
        return jnp.stack([jnp.eye(d)] * N)
    G.samples = count
    try: equivariance_error(jnp.zeros(shape), X.build(ei, gs, True)(G), X.build(eo, gs, True)(G), G)      # how many elements it draws
    except Exception: pass
    k = k[0]
    if not 1 <= k <= 8: raise CheckError('%d elements drawn' % k)
    def f(W, *Ms):
        G.samples = lambda N: jnp.stack(Ms[:N])
        err = equivariance_error(W, X.build(ei, gs, True)(G), X.build(eo, gs, True)(G), G)
        Ws = jnp.transpose(W.reshape(no, ni, -1), (2, 0, 1))
        a = jnp.stack([jnp.stack([w @ X.rho(ei, {g: M}, gs) for w in Ws]) for M in Ms])
        b = jnp.stack([jnp.stack([X.rho(eo, {g: M}, gs) @ w for w in Ws]) for M in Ms])
        rms = lambda z: jnp.sqrt(jnp.mean(z ** 2))
        move = rms(jnp.stack([M - jnp.eye(d) for M in Ms]))
        return [err], [rms(a - b) / jnp.maximum(jnp.maximum(rms(a) + rms(b), move), 1e-7)]
    try: ctx._guard(name, f, [Free('W', *shape)] + [(Orth if gs[g].orth else GL)('M%d' % i, d) for i in range(k)], eps=1e-4, tol=1e-3)
    finally: del G.samples
