"""C06: basis and projector, lazily on vectors and batches and densely, are one linear map."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free
from symx import exprs as X, subspace as S
SHARDS = {'quick': 8, 'thorough': 8}
EPS = 1e-3


def run(ctx):
    gs = X.groups()
    ctx.encodes('equivariant_basis', 'equivariant_projector', 'SumRep.equivariant_basis', 'SumRep.equivariant_projector', 'DirectProduct.equivariant_basis', 'DirectProduct.equivariant_projector',
                'lazy_direct_matmat', 'LazyKron', 'LazyPerm', 'Lazy', 'LinearOperator.__matmul__', 'LinearOperator.to_dense')
    maxn = 64 if ctx.thorough else 24
    ctx.bound('all vectors and batches of 2 columns with entries in [-1,1]; dimension <= %d; tolerance %g' % (maxn, EPS))
    for name, e, o in X.solvable(gs, ctx.thorough, ctx.seed + 1, maxn, 60 if ctx.thorough else 12):
        if not ctx.mine(name): continue
        with X.ordered(o, gs): ob(ctx, name, e, gs)


def ob(ctx, name, e, gs):
    got = S.solve(ctx, name, e, gs)
    if got is None: return
    Q, P = got
    N, r, cplx = X.size(e, gs), Q.shape[-1], S.is_complex(e, gs)
    def f(*a):
        if cplx: c, D, v, B = [jax.lax.complex(a[2 * i], a[2 * i + 1]) for i in range(4)]
        else: c, D, v, B = a
        Pv = P @ v
        L = [P @ B, P @ v[:, None], dense(P) @ v, P @ Pv]
        R = [jnp.stack([P @ B[:, 0], P @ B[:, 1]], 1), Pv[:, None], Pv, Pv]
        w = B[:, 1]
        L.append((jnp.conj(w) @ Pv)[None]); R.append((jnp.conj(P @ w) @ v)[None])       # self adjoint
        if r:
            Qd = dense(Q)
            Qc = Qd @ c
            L += [Q @ c, Q @ D, P @ (Q @ c), Qd @ (jnp.conj(Qd).T @ v)]
            R += [Qc, Qd @ D, Qc, Pv]
        else:
            L.append(Pv); R.append(jnp.zeros(N, Pv.dtype))
        return L, R
    args = []
    for nm, sh in (('c', (r,)), ('D', (r, 2)), ('v', (N,)), ('B', (N, 2))):
        args.append(Free(nm, *sh))
        if cplx: args.append(Free(nm + 'i', *sh))
    ctx._guard(name, f, args, eps=EPS * (2 if N <= 36 else 4), tol=EPS / 2)


def dense(M): return M.to_dense() if hasattr(M, 'to_dense') else M
