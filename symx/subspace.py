"""The equivariant subspace of a representation, as the library computes it, and as symbolic linear maps."""
import numpy as np
import jax
import jax.numpy as jnp
from . import poly, jx
from . import exprs as X
from .poly import as_poly
from .core import Free


def is_complex(e, gs): return any(np.iscomplexobj(a) for g in X.gnames(e) for a in gs[g].alg)


def solve(ctx, name, e, gs):
    """(Q, P) of the real code, or None when it raised (reported)"""
    def go():
        rep = X.build(e, gs)
        return rep.equivariant_basis(), rep.equivariant_projector()
    try: Q, P = ctx.real(go)
    except Exception as ex:
        if type(ex).__name__ != 'RealRaise': raise
        ctx.violation(name, 'the code raises %s' % ex)
        return None
    N = X.size(e, gs)
    if tuple(Q.shape)[0] != N or tuple(P.shape) != (N, N):
        ctx.violation(name, 'basis of shape %s, projector of shape %s for a representation of dimension %d' % (Q.shape, P.shape, N))
        return None
    return Q, P


def constraint_matrix(e, gs):
    N = X.size(e, gs)
    C = np.concatenate(X.constraints(e, gs) + [np.zeros((1, N))])
    return C[np.abs(C).sum(1) > 0] if np.abs(C).sum() else C[:1]


def linear_map(ctx, op, n):
    """the matrix of coefficients of op @ v for a symbolic v of length n (and whether anything else remained)"""
    outs, arrs = ctx.symbolic(lambda v: op @ v, [Free('v', n)])
    y, v = jx.to_obj(outs[0]), arrs[0]
    idx = {next(iter(p.t))[0]: k for k, p in enumerate(v)}
    M = np.zeros((y.shape[0], n), dtype=complex)
    for i in range(y.shape[0]):
        p = as_poly(y[i])
        for part, f in ((p.real, 1), (p.imag, 1j)):
            for m, c in part.t.items():
                if len(m) != 1 or m[0] not in idx: raise poly.Unsupported('not linear: %s' % (m,))
                M[i, idx[m[0]]] += f * c
    return M


# ---- the iterative solver used for large representations -------------------------------
def large(thorough):
    """(name, build, diagonal of the constraint): representations past the size at which the library stops using an SVD"""
    def pairs(d, k):
        """weights of which exactly k pairs cancel"""
        w = np.linspace(5., 6., d)
        for i in range(k): w[2 * i], w[2 * i + 1] = 1 + .4 * i, -1 - .4 * i
        return w
    from emlp.reps import V
    out = []
    w = pairs(75, 3)
    out.append(('large/weights/V^2', lambda w=w: V(X.user_group('Wide', [np.diag(w)])) ** 2, (w[:, None] + w[None]).reshape(-1)))
    a = np.concatenate([[1., -2., .6], np.linspace(2.5, 3.5, 15)])
    t = (a[:, None, None] + a[None, :, None] - a[None, None]).reshape(-1)
    b = pairs(76, 8)
    out.append(('large/weights/V.T*V.T', lambda b=b: V(X.user_group('Wider', [np.diag(b)])).T * V(X.user_group('Wider', [np.diag(b)])).T, -(b[:, None] + b[None]).reshape(-1)))
    if thorough: out.append(('large/weights/V*V*V.T', lambda a=a: V(X.user_group('Wide3', [np.diag(a)])) * V(X.user_group('Wide3', [np.diag(a)])) * V(X.user_group('Wide3', [np.diag(a)])).T, t))
    return out


def iterated(gs, thorough):
    """(name, expression): small representations handed to the iterative solver directly"""
    v, d = X.V, lambda g: X.D(X.V(g))
    L = [X.pw(v('SO3'), 2), X.pw(v('SO3'), 3), X.times(v('SL2'), d('SL2')), X.times(v('SL2'), d('SL2'), v('SL2'), d('SL2')), X.pw(v('S3'), 3), X.pw(v('Z3'), 3), X.pw(v('O2'), 2), X.times(v('SO11p'), v('SO11p')),
         X.pw(v('Z2'), 4), X.times(v('Spiral'), v('Spiral')), v('Spiral'), X.times(v('Spiral'), d('Spiral'), v('Spiral')), X.times(v('SU2'), v('SU2')), X.times(v('U2'), d('U2')), X.pw(v('D3'), 3), X.times(v('Weights'), v('Weights'), v('Weights')),
         X.times(v('Shear'), v('Shear')), X.pw(v('Tr2'), 3), X.pw(v('C5'), 2)]
    if thorough: L += [X.pw(v('S4'), 3), X.times(v('SL3'), d('SL3')), X.pw(v('Sp2'), 2), X.pw(v('SO13'), 2), X.pw(v('Z5'), 2), X.pw(v('Z4'), 3), X.times(v('SU3'), d('SU3')), X.times(v('SO2xZ2'), v('SO2xZ2'))]
    return [('iterative/' + X.show(e), e) for e in L]


def iterate(ctx, name, e, gs):
    """the basis that the library's iterative solver returns, or None (reported)"""
    from emlp.reps import representation as R
    solver = getattr(R, 'krylov_constraint_solve', None)
    if solver is None:     # no such entry point: only the large representations reach it
        ctx.done(name, 'skipped: no entry point to the iterative solver')
        return None
    from symx.core import RealRaise
    np.random.seed(ctx.seed)
    try: Q = ctx.real(lambda: solver(X.build(e, gs).constraint_matrix()))
    except RealRaise as ex:
        ctx.violation(name, 'the code raises %s' % ex)
        return None
    if len(Q.shape) != 2 or Q.shape[0] != X.size(e, gs):
        ctx.violation(name, 'basis of shape %s for a representation of dimension %d' % (tuple(Q.shape), X.size(e, gs)))
        return None
    return Q


def solve_large(ctx, name, build, n):
    from symx.core import RealRaise
    np.random.seed(ctx.seed)
    try: Q = ctx.real(lambda: build().equivariant_basis())
    except RealRaise as ex:
        ctx.violation(name, 'the code raises %s' % ex)
        return None
    if len(Q.shape) != 2 or Q.shape[0] != n:
        ctx.violation(name, 'basis of shape %s for a representation of dimension %d' % (tuple(Q.shape), n))
        return None
    return Q
