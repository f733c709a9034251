"""C08: lazy linear operators equal the dense matrices they stand for."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free
from symx import opx
SHARDS = {'quick': 8, 'thorough': 8}


def obligation(ctx, name, b, ex, adjoint=True):
    label, (m, n), op, dense, _ = ex
    args = list(b.args)
    cplx = b.cplx
    vecs = [Free('v', n), Free('V', n, 2), Free('c', n, 1), Free('u', m), Free('U', m, 2)]
    if cplx: vecs += [Free('iv', n), Free('iV', n, 2), Free('ic', n, 1), Free('iu', m), Free('iU', m, 2)]
    k = len(args)
    def f(*a):
        env = a[:k]
        v, V, c, u, U = a[k:k + 5]
        if cplx: v, V, c, u, U = [jax.lax.complex(p, q) for p, q in zip((v, V, c, u, U), a[k + 5:])]
        O, D = op(env), dense(env)
        if tuple(O.shape) != tuple(D.shape): raise ValueError('shape %s expected %s' % (O.shape, D.shape))
        got, want = [O @ v, O @ V, O @ c, O.matvec(v), O.matmat(V), O.to_dense(), O * v], [D @ v, D @ V, D @ c, D @ v, D @ V, D, D @ v]
        if adjoint:
            H = jnp.conj(D).T
            got += [O.T @ u, O.T @ U, O.H @ u, O.H @ U, O.T.to_dense(), O.H.to_dense(), O.rmatvec(u), O.rmatmat(U), O.T.T @ v, O.H.H @ v]
            want += [D.T @ u, D.T @ U, H @ u, H @ U, D.T, H, H @ u, H @ U, D @ v, D @ v]
        out = []
        for g, w in zip(got, want):
            g, w = jnp.asarray(g), jnp.asarray(w)
            if g.size == w.size and g.ndim != w.ndim: g = g.reshape(w.shape)
            out.append((g, w))
        return [g for g, _ in out], [w for _, w in out]
    ctx.identity(name, f, args + vecs)


def fixed(b):
    """one expression per kind of operator; built on a fresh builder each"""
    L = b.lazy
    yield lambda b: b.lazy(2, 3)
    yield lambda b: b.perm(4)
    yield lambda b: b.shift(3)
    yield lambda b: b.shift(5)
    yield lambda b: b.swap(4)
    yield lambda b: b.rot90(2)
    yield lambda b: b.rot90(3)
    yield lambda b: b.ident(3)
    yield lambda b: b.ident2(3)
    yield lambda b: b.custom(2, 3)
    yield lambda b: b.matop(3, 2)
    for raw in (False, True):
        yield lambda b: b.kron([b.lazy(2, 3), b.lazy(3, 2)], raw)
        yield lambda b: b.kron([b.lazy(2, 1), b.lazy(2, 3), b.lazy(3, 2)], raw)
        yield lambda b: b.ksum([b.lazy(2, 2), b.lazy(3, 3)], raw)
        yield lambda b: b.ksum([b.lazy(2, 2), b.lazy(3, 3), b.lazy(2, 2)], raw)
        yield lambda b: b.dsum([b.lazy(2, 3), b.lazy(1, 2)], [2, 3], raw)
        yield lambda b: b.dsum([b.lazy(2, 2), b.lazy(3, 1), b.lazy(1, 1)], [1, 2, 3], raw)
        yield lambda b: b.concat([b.lazy(2, 3), b.lazy(2, 3), b.lazy(2, 3)], raw)
    yield lambda b: b.dsum1([b.lazy(2, 3), b.lazy(3, 2)])
    yield lambda b: b.kron([b.perm(3), b.shift(2), b.lazy(2, 2)])
    yield lambda b: b.kron([b.ident(2), b.shift(3), b.ident(2)])
    yield lambda b: b.kron([b.shift(2), b.rot90(2)])
    yield lambda b: b.ksum([b.lazy(2, 2), b.scale(b.ident(2), 0)])
    yield lambda b: b.mul(b.perm(5), b.mul(b.dsum([b.lazy(2, 2), b.lazy(1, 1)], [2, 1]), b.perm(5)))
    yield lambda b: b.add(b.lazy(2, 3), b.lazy(2, 3))
    yield lambda b: b.sub(b.perm(3), b.ident(3))
    yield lambda b: b.adddense(b.perm(3), b.matrix(3, 3))
    yield lambda b: b.mul(b.lazy(2, 3), b.lazy(3, 2))
    yield lambda b: b.mul(b.lazy(3, 2), b.mul(b.lazy(2, 3), b.lazy(3, 3)))
    yield lambda b: b.neg(b.lazy(2, 3))
    yield lambda b: b.scale(b.lazy(2, 3), -2.5)
    yield lambda b: b.scale(b.kron([b.lazy(2, 2), b.lazy(2, 2)]), 3, False)
    if b.cplx:
        yield lambda b: b.scale(b.lazy(2, 3), 1 - 2j)
        yield lambda b: b.scale(b.kron([b.lazy(2, 2), b.lazy(2, 2)]), 1j, False)
    for p in range(4): yield lambda b, p=p: b.power(b.lazy(2, 2), p)
    yield lambda b: b.power(b.shift(4), 3)
    if not b.cplx:
        yield lambda b: b.jvp(3)
        yield lambda b: b.add(b.jvp(2), b.lazy(2, 2))
    yield lambda b: b.tr(b.lazy(2, 3))
    yield lambda b: b.adj(b.kron([b.lazy(2, 3), b.perm(2)]))
    yield lambda b: b.tr(b.dsum([b.lazy(2, 3), b.lazy(1, 2)], [2, 1]))
    yield lambda b: b.tr(b.concat([b.lazy(2, 3), b.lazy(2, 3)]))
    yield lambda b: b.mul(b.concat([b.lazy(2, 3), b.lazy(2, 3)]), b.tr(b.concat([b.lazy(2, 3), b.lazy(2, 3)])))


def run(ctx):
    ctx.encodes('LinearOperator', 'Lazy', 'LazyKron', 'LazyKronsum', 'LazyDirectSum', 'ConcatLazy', 'LazyPerm', 'LazyShift', 'SwapMatrix', 'Rot90', 'I', 'LazyJVP', '_SumLinearOperator', '_ProductLinearOperator',
                '_ScaledLinearOperator', '_PowerLinearOperator', '_TransposedLinearOperator', '_AdjointLinearOperator', '_CustomLinearOperator', 'MatrixLinearOperator')
    ctx.assume('float arithmetic is exact real arithmetic')
    ctx.bound('all real and complex entries; operators of at most 24 rows and columns; fixed list plus random expressions of depth <= 3')
    for cplx in (False, True):
        for i, mk in enumerate(fixed(opx.Builder(np.random.default_rng(0), cplx))):
            b = opx.Builder(np.random.default_rng(7 + i), cplx)
            ex = mk(b)
            obligation(ctx, '%s/%d/%s' % ('complex' if cplx else 'real', i, ex[0]), b, ex)
    rng = np.random.default_rng(ctx.seed)
    for i in range(160 if ctx.thorough else 50):
        b = opx.Builder(np.random.default_rng([ctx.seed, i]), i % 3 == 2)
        m, n = [(2, 2), (4, 4), (2, 4), (4, 2), (6, 6), (4, 6), (3, 3), (9, 9), (8, 8)][rng.integers(9)]
        ex = opx.random_op(b, m, n, 3 if ctx.thorough and i % 2 else 2)
        obligation(ctx, 'random%d%s/%s' % (i, '/complex' if b.cplx else '', ex[0]), b, ex)
    for cplx in (False, True):
        b = opx.Builder(np.random.default_rng(1), cplx)
        ex = b.kron([b.lazy(2, 2), b.lazy(2, 2)])
        n = len(b.args)
        ctx.vacuity('vacuity%d' % cplx, lambda *a, ex=ex, n=n: ([ex[2](a[:n]).H @ a[n]], [ex[3](a[:n]).T @ a[n]] if cplx else [ex[3](a[:n]) @ a[n]]), b.args + [Free('v', 4)])
