"""C04: every vector of the equivariant subspace really is invariant."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free
from symx import exprs as X, subspace as S, lra, poly
SHARDS = {'quick': 8, 'thorough': 8}
EPS = 2e-3


def run(ctx):
    gs = X.groups()
    ctx.encodes('equivariant_basis', 'equivariant_projector', 'orthogonal_complement', 'constraint_matrix', 'solcache', 'SumRep.equivariant_basis', 'SumRep.equivariant_projector', 'DirectProduct.equivariant_basis',
                'DirectProduct.equivariant_projector', 'lazy_direct_matmat', 'krylov_constraint_solve', 'krylov_constraint_solve_upto_r')
    maxn = 81 if ctx.thorough else 40
    ctx.bound('all coefficient vectors / vectors with entries in [-1,1]; dimension <= %d; tolerance %g' % (maxn, EPS))
    ctx.assume('the singular value decomposition and the iterative solver (from a fixed seed) are run, not encoded: their results are certified')
    for name, e, o in X.solvable(gs, ctx.thorough, ctx.seed, maxn, 60 if ctx.thorough else 16):
        if not ctx.mine(name): continue
        ctx_ob(ctx, name, e, o, gs)
    history(ctx, gs)
    for name, e in S.iterated(gs, ctx.thorough):
        if not ctx.mine(name): continue
        Q = S.iterate(ctx, name, e, gs)
        if Q is not None: residual(ctx, name, Q, lambda M, e=e: S.constraint_matrix(e, gs) @ M)
    for name, build, c in S.large(ctx.thorough):
        if not ctx.mine(name): continue
        Q = S.solve_large(ctx, name, build, len(c))
        if Q is not None: residual(ctx, name, Q, lambda M, c=c: c[:, None] * M)
    v = X.V('SO3')
    def wrong(c):
        with jax.ensure_compile_time_eval(): Q = X.build(X.pw(v, 2), gs).equivariant_basis()
        y = Q @ c
        A = X.constraints(X.pw(X.V('SL3'), 2), gs)[0]
        return [jnp.asarray(A) @ y], [jnp.zeros(9)]
    ctx.vacuity('vacuity', wrong, [Free('c', 1)], eps=EPS)


def residual(ctx, name, Q, constraint):
    """no combination of the columns that the iterative solver returned leaves the kernel of the constraint"""
    poly.reset()
    r = Q.shape[-1]
    if not r: return ctx.done(name, 'an empty basis')
    D = constraint(S.linear_map(ctx, Q, r))
    D = D[np.abs(D).sum(1) > 1e-6]
    w = lra.moved(D, EPS)
    if w is None: return ctx.done(name, 'the iterative solver: %d vectors' % r)
    by = np.abs(constraint(np.asarray(Q)) @ w).max()
    if by > EPS / 2: return ctx.violation(name, 'a combination of the basis of the iterative solver is not invariant (by %.2g)' % by, dict(c=w.tolist()))
    ctx.error(name, 'counterexample did not reproduce')


def history(ctx, gs):
    """the same after the process has solved many other representations"""
    x, y, z = X.V('SL2'), X.V('S3'), X.V('Z2')
    es = [(X.times(x, y, X.D(x)), ('SL2', 'S3')), (X.times(y, x, y, X.D(x)), ('S3', 'SL2')), (X.times(x, X.D(x), y), ('S3', 'SL2')), (X.plus(X.times(x, X.D(x), y), y, x), ('SL2', 'S3')), (X.times(X.D(x), x, X.D(x), x), None),
          (X.times(z, x, z, X.D(x)), ('SL2', 'Z2')), (X.times(X.plus(x, y), X.plus(X.D(x), y)), ('S3', 'SL2')), (X.times(X.D(x), x), None), (X.plus(X.times(X.D(x), x, y, y), X.pw(y, 2)), ('SL2', 'S3')), (X.times(x, X.pw(X.D(x), 2), x), None)]
    todo = [(i, e, o) for i, (e, o) in enumerate(es) if ctx.mine('history/%s' % X.show(e))]
    if not todo: return
    ctx.bound('histories: representations solved after %d others were solved and cached' % (400 if ctx.thorough else 100))
    from emlp.reps import V
    W = [X.user_group('Weight%d' % k, [np.diag([float(k + 1), -1.])]) for k in range(400 if ctx.thorough else 100)]
    for g in W: ctx.real(lambda: (V(g) * V(g).T).equivariant_basis())
    for i, e, o in todo: ctx_ob(ctx, 'history/%s' % X.show(e), e, o, gs)


def ctx_ob(ctx, name, e, o, gs):
    names = sorted(X.gnames(e))
    cplx = any(np.iscomplexobj(a) for g in names for a in gs[g].alg)
    N = X.size(e, gs)
    with X.ordered(o, gs):
        def solve():
            rep = X.build(e, gs)
            return rep.equivariant_basis(), rep.equivariant_projector()
        try: Q, P = ctx.real(solve)
        except Exception as ex:
            if type(ex).__name__ != 'RealRaise': raise
            return ctx.violation(name, 'the code raises %s' % ex)
        C = np.concatenate(X.constraints(e, gs) + [np.zeros((1, N))])
        C = C[np.abs(C).sum(1) > 0] if np.abs(C).sum() else C[:1]
        r = Q.shape[-1]
        if tuple(Q.shape)[0] != N or tuple(P.shape) != (N, N):
            return ctx.violation(name, 'basis of shape %s, projector of shape %s for a representation of dimension %d' % (Q.shape, P.shape, N))
        def f(*a):
            if cplx: c, v = jax.lax.complex(a[0], a[1]), jax.lax.complex(a[2], a[3])
            else: c, v = a
            got = [jnp.asarray(C) @ (P @ v)]
            if r: got.append(jnp.asarray(C) @ (Q @ c))
            return got, [jnp.zeros(C.shape[0])] * len(got)
        args = [Free('c', r), Free('ci', r), Free('v', N), Free('vi', N)] if cplx else [Free('c', r), Free('v', N)]
        ctx._guard(name, f, args, eps=EPS, tol=EPS / 2)
