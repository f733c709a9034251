"""C05: no invariant vector lies outside the span of the basis; the basis is orthonormal; P is the orthogonal projector."""
import numpy as np
from symx import exprs as X, subspace as S, lra, smt, poly
from symx.core import CheckError, RealRaise
SHARDS = {'quick': 8, 'thorough': 8}
TOL = 1e-4


def run(ctx):
    gs = X.groups()
    ctx.encodes('equivariant_basis', 'orthogonal_complement', 'constraint_matrix', 'solcache', 'SumRep.equivariant_basis', 'DirectProduct.equivariant_basis', 'SumRep.equivariant_projector',
                'DirectProduct.equivariant_projector', 'lazy_direct_matmat', 'LazyKron', 'krylov_constraint_solve', 'krylov_constraint_solve_upto_r')
    maxn = 100 if ctx.thorough else 64
    ctx.bound('all vectors of unit max-norm of representations of dimension <= %d; residual tolerance %g' % (maxn, TOL))
    ctx.assume('the singular value decomposition and the iterative solver (from a fixed seed) are run, not encoded: their results are certified')
    for name, e, o in X.solvable(gs, ctx.thorough, ctx.seed, maxn, 60 if ctx.thorough else 16):
        if 'Spirals' in X.gnames(e) and X.size(e, gs) > 9: continue     # the solver gives no answer
        if not ctx.mine(name): continue
        with X.ordered(o, gs): ob(ctx, name, e, gs)
    for name, e in S.iterated(gs, ctx.thorough):
        if ctx.mine(name): iterated(ctx, name, e, gs)
    for name, build, c in S.large(ctx.thorough):
        if ctx.mine(name): large(ctx, name, build, c)
    if ctx.mine('vacuity'):      # dropping a column of a basis must leave an invariant vector outside
        C = S.constraint_matrix(X.pw(X.V('SO3'), 2), gs)
        if outside(C, np.zeros((9, 0)), 9) is None: ctx.error('vacuity', 'an empty basis passed')
        else: ctx.witness += 1


def outside(C, Q, N):
    """a vector u with max|u_i| = 1, |Cu| <= TOL, |Q^H u| <= TOL, or None (unsat)"""
    rows, tol = lra.echelon(Q.conj().T, TOL)
    return lra.kernel_vector(np.concatenate([C, rows]), np.concatenate([np.full(len(C), TOL), tol]))


def ob(ctx, name, e, gs):
    N = X.size(e, gs)
    got = S.solve(ctx, name, e, gs)
    if got is None: return
    Qr, Pr = got
    C = S.constraint_matrix(e, gs)
    try:
        poly.reset()
        r = Qr.shape[-1]
        Q = S.linear_map(ctx, Qr, r) if r else np.zeros((N, 0))
        P = S.linear_map(ctx, Pr, N)
    except Exception as ex:
        def go():
            import jax.numpy as jnp
            return (Qr @ jnp.ones(r) if r else 0), Pr @ jnp.ones(N)
        try: ctx.real(go)
        except RealRaise as q: return ctx.violation(name, 'the code raises %s' % q)
        return ctx.error(name, '%s: %s' % (type(ex).__name__, ex))
    if not (np.isfinite(Q).all() and np.isfinite(P).all()): return ctx.violation(name, 'not finite')
    try: u = outside(C, Q, N)
    except CheckError as ex: return ctx.error(name, str(ex))
    if u is not None:
        Qd = np.asarray(ctx.real(lambda: Qr @ np.eye(r))) if r else np.zeros((N, 0))    # replay with the real, dense basis
        res, inside = np.abs(C @ u).max(), np.abs(Qd.conj().T @ u).max(initial=0)
        if res < 2 * TOL and inside < .1:
            return ctx.violation(name, 'an invariant vector of norm %.2f (residual %.1e) is orthogonal to the whole basis of %d vectors' % (np.linalg.norm(u), res, r),
                                 dict(u=np.stack([u.real, np.imag(u)]).tolist()))
        return ctx.error(name, 'counterexample did not reproduce')
    # |Q^H Q c - c| and |P v - Q Q^H v| over the unit box, entrywise linear forms
    for what, D, n in (('the basis is not orthonormal', Q.conj().T @ Q - np.eye(r), r), ('the projector is not the orthogonal projector onto the span', P - Q @ Q.conj().T, N)):
        w = lra.moved(D, 2e-3)
        if w is not None:
            Qd = np.asarray(ctx.real(lambda: Qr @ np.eye(r))) if r else np.zeros((N, 0))
            Pd = np.asarray(ctx.real(lambda: Pr @ np.eye(N)))
            Dd = Qd.conj().T @ Qd - np.eye(r) if n == r and 'basis' in what else Pd - Qd @ Qd.conj().T
            if np.abs(Dd @ w).max() > 1e-3: return ctx.violation(name, '%s (by %.2g)' % (what, np.abs(Dd @ w).max()), dict(c=w.tolist()))
            return ctx.error(name, 'counterexample did not reproduce: ' + what)
    ctx.done(name, 'basis of %d vectors is orthonormal and spans all invariant vectors of dimension %d' % (r, N))


def iterated(ctx, name, e, gs):
    """the same of the iterative solver, called directly on a small constraint"""
    Qr = S.iterate(ctx, name, e, gs)
    if Qr is None: return
    poly.reset()
    N, r = X.size(e, gs), Qr.shape[-1]
    Q = S.linear_map(ctx, Qr, r) if r else np.zeros((N, 0))
    C = S.constraint_matrix(e, gs)
    try: u = outside(C, Q, N)
    except CheckError as ex: return ctx.error(name, str(ex))
    if u is not None:
        Qd = np.asarray(Qr)
        if np.abs(C @ u).max() < 2 * TOL and np.abs(Qd.conj().T @ u).max(initial=0) < .1:
            return ctx.violation(name, 'an invariant vector is orthogonal to the whole basis of %d vectors found by the iterative solver' % r, dict(u=np.stack([u.real, np.imag(u)]).tolist()))
        return ctx.error(name, 'counterexample did not reproduce')
    orthonormal(ctx, name, Qr, Q)


def orthonormal(ctx, name, Qr, Q):
    r = Q.shape[1]
    w = lra.moved(Q.conj().T @ Q - np.eye(r), 2e-3)
    if w is not None:
        Qd = np.asarray(Qr)
        by = np.abs((Qd.conj().T @ Qd - np.eye(r)) @ w).max()
        return ctx.violation(name, 'the basis is not orthonormal (by %.2g)' % by, dict(c=w.tolist())) if by > 1e-3 else ctx.error(name, 'counterexample did not reproduce')
    ctx.done(name, 'the iterative solver found an orthonormal basis of all %d invariant directions' % r)


def large(ctx, name, build, c):
    Qr = S.solve_large(ctx, name, build, len(c))
    if Qr is None: return
    poly.reset()
    r = Qr.shape[-1]
    Q = S.linear_map(ctx, Qr, r).real if r else np.zeros((len(c), 0))
    u = lra.diagonal_kernel_vector(c, Q.T)
    if u is not None:
        if np.abs(c * u).max() < 2 * TOL and np.abs(np.asarray(Qr).T @ u).max(initial=0) < .1:
            return ctx.violation(name, 'an invariant vector is orthogonal to the whole basis of %d vectors of a representation of dimension %d' % (r, len(c)), dict(support=np.flatnonzero(u).tolist(), u=u[np.flatnonzero(u)].tolist()))
        return ctx.error(name, 'counterexample did not reproduce')
    orthonormal(ctx, name, Qr, Q)
