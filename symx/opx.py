"""Expressions of lazy linear operators: how to build them with the library, and the dense matrix each one denotes."""
import numpy as np
import jax
import jax.numpy as jnp
from .core import Free, GL


class Leaf:
    def __init__(self, kind, shape, make, dense, slots, invertible=False):
        self.kind, self.shape, self.make, self.dense, self.slots, self.inv = kind, shape, make, dense, slots, invertible


class Builder:
    """allocates symbolic slots; an expression is (label, shape, op(env), dense(env), inverse-transpose(env) or None)"""
    def __init__(self, rng, cplx=False, gl=False):
        self.rng, self.cplx, self.gl, self.args = rng, cplx, gl, []

    def matrix(self, m, n):
        k = len(self.args)
        if self.gl:
            assert m == n
            self.args.append(GL('M%d' % k, n))
            return lambda env: env[k]
        self.args.append(Free('A%d' % k, m, n))
        if not self.cplx: return lambda env: env[k]
        self.args.append(Free('B%d' % k, m, n))
        return lambda env: jax.lax.complex(env[k], env[k + 1])

    # ---- leaves
    def lazy(self, m, n):
        from emlp.reps.linear_operator_base import Lazy
        A = self.matrix(m, n)
        return ('L%dx%d' % (m, n), (m, n), lambda e: Lazy(A(e)), A, lambda e: jnp.linalg.inv(A(e)).T)

    def perm(self, n):
        from emlp.reps.linear_operators import LazyPerm
        p = self.rng.permutation(n)
        D = np.eye(n)[p]
        return ('P%s' % list(p), (n, n), lambda e: LazyPerm(p), lambda e: jnp.asarray(D), lambda e: jnp.asarray(D))

    def shift(self, n):
        from emlp.reps.linear_operators import LazyShift
        k = int(self.rng.integers(-2, 3))
        D = np.roll(np.eye(n), k, axis=0)
        return ('shift(%d,%d)' % (n, k), (n, n), lambda e: LazyShift(n, k), lambda e: jnp.asarray(D), lambda e: jnp.asarray(D))

    def swap(self, n):
        if n < 2: return self.ident(n)
        from emlp.reps.linear_operators import SwapMatrix
        i, j = [int(q) for q in self.rng.choice(n, 2, replace=False)]
        D = np.eye(n); D[[i, j]] = D[[j, i]]
        return ('swap(%d,%d)' % (i, j), (n, n), lambda e: SwapMatrix((i, j), n), lambda e: jnp.asarray(D), lambda e: jnp.asarray(D))

    def rot90(self, m):
        from emlp.reps.linear_operators import Rot90
        k = int(self.rng.integers(-1, 4))
        D = np.stack([np.rot90(c.reshape(m, m), k).reshape(-1) for c in np.eye(m * m)], 1)
        return ('rot90(%d,%d)' % (m, k), (m * m, m * m), lambda e: Rot90(m, k), lambda e: jnp.asarray(D), lambda e: jnp.asarray(D))

    def ident(self, n):
        from emlp.reps.linear_operators import I
        return ('I%d' % n, (n, n), lambda e: I(n), lambda e: jnp.eye(n), lambda e: jnp.eye(n))

    def ident2(self, n):
        from emlp.reps.linear_operator_base import IdentityOperator
        return ('Id%d' % n, (n, n), lambda e: IdentityOperator((n, n)), lambda e: jnp.eye(n), None)

    def custom(self, m, n):
        from emlp.reps.linear_operator_base import LinearOperator
        A = self.matrix(m, n)
        def op(e):
            D = A(e)
            H = jnp.conj(D).T
            return LinearOperator((m, n), matvec=lambda v: D @ v, rmatvec=lambda v: H @ v, matmat=lambda V: D @ V, rmatmat=lambda V: H @ V)
        return ('custom%dx%d' % (m, n), (m, n), op, A, None)

    def matop(self, m, n):
        from emlp.reps.linear_operator_base import MatrixLinearOperator
        A = self.matrix(m, n)
        return ('matop%dx%d' % (m, n), (m, n), lambda e: MatrixLinearOperator(A(e)), A, None)

    def jvp(self, n):
        from emlp.reps.linear_operators import LazyJVP, lazify
        assert not self.cplx and not self.gl
        X, TX = self.matrix(n, n), self.matrix(n, n)
        fn = lambda x: lazify(x @ x.T + 3 * x)
        def dense(e):
            x, t = X(e), TX(e)
            return t @ x.T + x @ t.T + 3 * t
        return ('jvp%d' % n, (n, n), lambda e: LazyJVP(fn, X(e), TX(e)), dense, None)

    # ---- combinators
    def kron(self, parts, raw=False):
        from emlp.reps.linear_operators import LazyKron
        m, n = int(np.prod([p[1][0] for p in parts])), int(np.prod([p[1][1] for p in parts]))
        def dense(e):
            out = jnp.eye(1)
            for p in parts: out = jnp.kron(out, p[3](e))
            return out
        def invT(e):
            out = jnp.eye(1)
            for p in parts: out = jnp.kron(out, p[4](e))
            return out
        return ('kron(%s)' % ','.join(p[0] for p in parts), (m, n), lambda e: LazyKron([(p[3] if raw else p[2])(e) for p in parts]), dense, invT if all(p[4] for p in parts) else None)

    def ksum(self, parts, raw=False):
        from emlp.reps.linear_operators import LazyKronsum
        n = int(np.prod([p[1][0] for p in parts]))
        def dense(e):
            out = jnp.zeros((1, 1))
            for p in parts: out = jnp.kron(out, jnp.eye(p[1][0])) + jnp.kron(jnp.eye(out.shape[0]), p[3](e))
            return out
        return ('ksum(%s)' % ','.join(p[0] for p in parts), (n, n), lambda e: LazyKronsum([(p[3] if raw else p[2])(e) for p in parts]), dense, None)

    def dsum(self, parts, mult, raw=False):
        from emlp.reps.linear_operators import LazyDirectSum
        m, n = sum(p[1][0] * c for p, c in zip(parts, mult)), sum(p[1][1] * c for p, c in zip(parts, mult))
        bd = lambda k: lambda e: jax.scipy.linalg.block_diag(*[p[k](e) for p, c in zip(parts, mult) for _ in range(c)])
        return ('dsum(%s)' % ','.join('%d%s' % (c, p[0]) for p, c in zip(parts, mult)), (m, n),
                lambda e: LazyDirectSum([(p[3] if raw else p[2])(e) for p in parts], list(mult)), bd(3), bd(4) if all(p[4] for p in parts) else None)

    def dsum1(self, parts):
        from emlp.reps.linear_operators import LazyDirectSum
        m, n = sum(p[1][0] for p in parts), sum(p[1][1] for p in parts)
        bd = lambda k: lambda e: jax.scipy.linalg.block_diag(*[p[k](e) for p in parts])
        return ('dsum(%s)' % ','.join(p[0] for p in parts), (m, n), lambda e: LazyDirectSum([p[2](e) for p in parts]), bd(3), bd(4) if all(p[4] for p in parts) else None)

    def concat(self, parts, raw=False):
        from emlp.reps.linear_operators import ConcatLazy
        m, n = sum(p[1][0] for p in parts), parts[0][1][1]
        return ('concat(%s)' % ','.join(p[0] for p in parts), (m, n), lambda e: ConcatLazy([(p[3] if raw else p[2])(e) for p in parts]), lambda e: jnp.concatenate([p[3](e) for p in parts]), None)

    def add(self, a, b): return ('(%s+%s)' % (a[0], b[0]), a[1], lambda e: a[2](e) + b[2](e), lambda e: a[3](e) + b[3](e), lambda e: jnp.linalg.inv(a[3](e) + b[3](e)).T)
    def adddense(self, a, A): return ('(%s+dense)' % a[0], a[1], lambda e: a[2](e) + A(e), lambda e: a[3](e) + A(e), None)
    def sub(self, a, b): return ('(%s-%s)' % (a[0], b[0]), a[1], lambda e: a[2](e) - b[2](e), lambda e: a[3](e) - b[3](e), lambda e: jnp.linalg.inv(a[3](e) - b[3](e)).T)
    def neg(self, a): return ('-%s' % a[0], a[1], lambda e: -a[2](e), lambda e: -a[3](e), (lambda e: -a[4](e)) if a[4] else None)
    def scale(self, a, c, left=True):
        return ('%s%s' % (c, a[0]), a[1], lambda e: c * a[2](e) if left else a[2](e) * c, lambda e: c * a[3](e), (lambda e: (1 / c) * a[4](e)) if a[4] else None)
    def mul(self, a, b): return ('(%s@%s)' % (a[0], b[0]), (a[1][0], b[1][1]), lambda e: a[2](e) @ b[2](e), lambda e: a[3](e) @ b[3](e), (lambda e: a[4](e) @ b[4](e)) if a[4] and b[4] else None)
    def power(self, a, k):
        def pw(f):
            def g(e):
                out = jnp.eye(a[1][0])
                for _ in range(k): out = out @ f(e)
                return out
            return g
        return ('%s**%d' % (a[0], k), a[1], lambda e: a[2](e) ** k, pw(a[3]), pw(a[4]) if a[4] else None)
    def tr(self, a): return ('%s.T' % a[0], a[1][::-1], lambda e: a[2](e).T, lambda e: a[3](e).T, None)
    def adj(self, a): return ('%s.H' % a[0], a[1][::-1], lambda e: a[2](e).H, lambda e: jnp.conj(a[3](e)).T, None)


def square_leaf(b, n, kinds=None):
    opts = ['lazy', 'perm', 'shift', 'swap', 'ident', 'custom', 'matop', 'ident2'] + (['rot90'] if n in (4, 9) else []) + ([] if b.cplx else ['jvp'])
    if b.gl: opts = ['lazy', 'perm', 'shift', 'swap', 'ident'] + (['rot90'] if n in (4, 9) else [])
    k = opts[b.rng.integers(len(opts))]
    if k in ('lazy', 'custom', 'matop'): return getattr(b, k)(n, n)
    if k == 'rot90': return b.rot90(int(round(n ** .5)))
    return getattr(b, k)(n)


def random_op(b, m, n, depth):
    """a random operator expression of shape (m, n)"""
    r = b.rng
    if depth == 0: return square_leaf(b, n) if m == n and r.random() < .8 else getattr(b, ['lazy', 'custom', 'matop'][r.integers(3)])(m, n)
    opts = ['add', 'sub', 'mul', 'scale', 'neg', 'tr', 'adj']
    if m == n: opts += ['power', 'perm', 'dsum']
    if m % 2 == 0 and n % 2 == 0: opts += ['kron', 'kron', 'dsum2']
    if m % 2 == 0: opts += ['concat']
    if m == n and n % 2 == 0: opts += ['ksum', 'ksum']
    k = opts[r.integers(len(opts))]
    sub = lambda p, q: random_op(b, p, q, depth - 1)
    if k in ('add', 'sub'): return getattr(b, k)(sub(m, n), sub(m, n))
    if k == 'mul':
        q = int(r.integers(2, 5))
        return b.mul(sub(m, q), sub(q, n))
    if k == 'scale': return b.scale(sub(m, n), [2.0, -3, .5, (1 - 2j)][r.integers(4 if b.cplx else 3)], bool(r.integers(2)))
    if k == 'neg': return b.neg(sub(m, n))
    if k in ('tr', 'adj'): return getattr(b, k)(sub(n, m))
    if k == 'power': return b.power(sub(n, n), int(r.integers(0, 3)))
    if k == 'perm': return b.mul(b.perm(n), b.mul(sub(n, n), b.perm(n)))
    if k == 'dsum':
        q = int(r.integers(1, n)) if n > 1 else 1
        if q == n: return sub(n, n)
        return b.dsum([sub(q, q), sub(n - q, n - q)], [1, 1], bool(r.integers(2)))
    if k == 'dsum2': return b.dsum([sub(m // 2, n // 2)], [2], bool(r.integers(2)))
    if k == 'kron':
        parts = [sub(2, 2), sub(m // 2, n // 2)] if r.random() < .5 else [sub(m // 2, n // 2), sub(2, 2)]
        return b.kron(parts, bool(r.integers(2)))
    if k == 'ksum':
        parts = [sub(2, 2), sub(n // 2, n // 2)] if r.random() < .5 else [sub(n // 2, n // 2), sub(2, 2)]
        return b.ksum(parts, bool(r.integers(2)))
    if k == 'concat': return b.concat([sub(m // 2, n), sub(m // 2, n)], bool(r.integers(2)))
