"""C09: the inverse transpose of a lazy operator is exactly that."""
import numpy as np
import jax.numpy as jnp
from symx.core import Free
from symx import opx
SHARDS = {'quick': 4, 'thorough': 8}


def fixed():
    yield lambda b: b.lazy(3, 3)
    yield lambda b: b.perm(5)
    yield lambda b: b.shift(4)
    yield lambda b: b.swap(4)
    yield lambda b: b.rot90(3)
    yield lambda b: b.ident(3)
    for raw in (False, True):
        yield lambda b: b.kron([b.lazy(2, 2), b.lazy(3, 3)], raw)
        yield lambda b: b.kron([b.lazy(2, 2), b.lazy(2, 2), b.lazy(3, 3)], raw)
        yield lambda b: b.dsum([b.lazy(2, 2), b.lazy(3, 3)], [2, 1], raw)
        yield lambda b: b.dsum([b.lazy(2, 2), b.lazy(3, 3), b.lazy(2, 2)], [1, 2, 3], raw)
    yield lambda b: b.kron([b.perm(3), b.lazy(2, 2)])
    yield lambda b: b.mul(b.lazy(3, 3), b.lazy(3, 3))
    yield lambda b: b.mul(b.lazy(2, 2), b.mul(b.lazy(2, 2), b.lazy(2, 2)))
    yield lambda b: b.mul(b.perm(5), b.mul(b.dsum([b.lazy(2, 2), b.lazy(3, 3)], [1, 1]), b.perm(5)))
    yield lambda b: b.mul(b.perm(6), b.mul(b.kron([b.lazy(2, 2), b.lazy(3, 3)]), b.perm(6)))
    yield lambda b: b.scale(b.lazy(2, 2), 4.0)
    yield lambda b: b.scale(b.lazy(2, 2), -0.5, False)
    yield lambda b: b.neg(b.lazy(3, 3))
    yield lambda b: b.scale(b.dsum([b.lazy(2, 2)], [3]), 2)
    for p in range(4): yield lambda b, p=p: b.power(b.lazy(2, 2), p)
    yield lambda b: b.add(b.lazy(2, 2), b.lazy(2, 2))
    yield lambda b: b.sub(b.lazy(2, 2), b.ident(2))
    yield lambda b: b.kron([b.add(b.lazy(2, 2), b.lazy(2, 2)), b.lazy(2, 2)])
    yield lambda b: b.kron([b.mul(b.lazy(2, 2), b.perm(2)), b.dsum([b.lazy(2, 2)], [2])])
    yield lambda b: b.dsum([b.kron([b.lazy(2, 2), b.perm(2)]), b.mul(b.lazy(2, 2), b.lazy(2, 2))], [1, 2])


def obligation(ctx, name, b, ex):
    label, (m, n), op, dense, invT = ex
    k = len(b.args)
    def f(*a):
        env, v, W = a[:k], a[k], a[k + 1]
        J, D = op(env).invT(), invT(env)
        dn = J.to_dense() if hasattr(J, 'to_dense') else J
        return [J @ v, J @ W, dn], [D @ v, D @ W, D]
    ctx.identity(name, f, b.args + [Free('v', n), Free('W', n, 2)])


def random_inv(b, n, depth):
    r = b.rng
    if depth == 0: return b.lazy(n, n) if r.random() < .6 else opx.square_leaf(b, n)
    opts = ['mul', 'scale', 'neg', 'power', 'perm'] + (['dsum', 'dsum2'] if n > 2 else []) + (['kron'] if n % 2 == 0 and n > 2 else [])
    k = opts[r.integers(len(opts))]
    sub = lambda q: random_inv(b, q, depth - 1)
    if k == 'mul': return b.mul(sub(n), sub(n))
    if k == 'scale': return b.scale(sub(n), [2.0, -4, .5][r.integers(3)], bool(r.integers(2)))
    if k == 'neg': return b.neg(sub(n))
    if k == 'power': return b.power(sub(n), int(r.integers(0, 3)))
    if k == 'perm': return b.mul(b.perm(n), b.mul(sub(n), b.perm(n)))
    if k == 'kron': return b.kron([sub(2), sub(n // 2)] if r.random() < .5 else [sub(n // 2), sub(2)], bool(r.integers(2)))
    if k == 'dsum2' and n % 2 == 0: return b.dsum([sub(n // 2)], [2], bool(r.integers(2)))
    q = int(r.integers(2, n - 1)) if n > 3 else None
    return b.dsum([sub(q), sub(n - q)], [1, 1]) if q else sub(n)


def run(ctx):
    ctx.encodes('invT of Lazy, LazyKron, LazyDirectSum, LazyPerm, LazyShift, SwapMatrix, Rot90, I, _ProductLinearOperator, _ScaledLinearOperator, _PowerLinearOperator, _SumLinearOperator')
    ctx.assume('inv(M) is the matrix X with MX = I, compatible with products, Kronecker products and blocks; exact real arithmetic')
    ctx.bound('all invertible real entries, operators of at most 18 rows; fixed list plus random expressions of depth <= 3')
    for i, mk in enumerate(fixed()):
        b = opx.Builder(np.random.default_rng(3 + i), gl=True)
        ex = mk(b)
        obligation(ctx, '%d/%s' % (i, ex[0]), b, ex)
    for i in range(100 if ctx.thorough else 30):
        b = opx.Builder(np.random.default_rng([ctx.seed, i, 9]), gl=True)
        n = [2, 4, 5, 6, 8][b.rng.integers(5)]
        ex = random_inv(b, n, 3 if ctx.thorough else 2)
        if ex[4] is None: continue
        obligation(ctx, 'random%d/%s' % (i, ex[0]), b, ex)
    b = opx.Builder(np.random.default_rng(1), gl=True)
    ex = b.kron([b.lazy(2, 2), b.lazy(2, 2)])
    ctx.vacuity('vacuity', lambda a, c, v: ([ex[2]((a, c)).invT() @ v], [ex[3]((a, c)) @ v]), b.args + [Free('v', 4)])
