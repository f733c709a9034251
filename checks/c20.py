"""C20: an augmented model applies to every row its own group element, undoes it on the output, and is the plain model in evaluation."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Orth, Free
from symx import exprs as X, jx
SHARDS = {'quick': 8, 'thorough': 8}


def models(ni, no, rng):
    A, B, c = rng.integers(-2, 3, (no, ni)).astype(np.float32), rng.integers(-2, 3, (no, ni)).astype(np.float32), rng.integers(-2, 3, no).astype(np.float32)
    return dict(linear=lambda x, t: x @ A.T + c * (1 if t else 3),
                quadratic=lambda x, t: (x @ A.T) * (x @ B.T) + (c if t else 2 * c),
                nonlinear=lambda x, t: jax.nn.sigmoid(x @ A.T) * (x @ B.T) - (0 if t else 1))


def family(gs, thorough):
    out = []
    for g in ('SL2', 'SO2', 'S3', 'SO11p', 'Z3', 'Shear') + (('SO3', 'SL2xS2', 'O3') if thorough else ('O3',)):
        if g not in gs: continue
        v, d, s = X.V(g), X.D(X.V(g)), X.Sc
        P = [(v, v), (X.plus(v, s), X.plus(s, v)), (X.n(2, v), s), (v, X.n(2, s)), (X.plus(s, v), X.pw(v, 2)), (X.pw(v, 2), v), (X.plus(v, s, v), X.plus(v, s, v)), (s, v)]
        if not gs[g].orth: P += [(X.plus(v, d), X.plus(d, v)), (d, v), (v, X.times(v, d)), (X.times(d, v), d)]
        for i, p in enumerate(P): out.append((g,) + p + (i,))
    return out


def run(ctx):
    gs = X.groups()
    ctx.encodes('GroupAugmentation.__init__', 'GroupAugmentation.__call__', 'default_aug', 'rho_dense')
    ctx.assume('inv(M) by contract; the sampled matrices are free invertible matrices (for orthogonal groups: matrices whose inverse is their transpose); exact real arithmetic')
    maxn, bs = (18, (1, 2, 3)) if ctx.thorough else (9, (1, 2))
    ctx.bound('batches of %s rows, all inputs, all sampled matrices; representations of dimension <= %d; linear, quadratic and sigmoid models' % (bs, maxn))
    from emlp.datasets import GroupAugmentation
    for g, ei, eo, i in family(gs, ctx.thorough):
        ni, no, d = X.size(ei, gs), X.size(eo, gs), gs[g].d
        if max(ni, no) > maxn: continue
        try: G0 = gs[g].make()
        except Exception: continue         # C10 reports groups which cannot be constructed
        ms = models(ni, no, np.random.default_rng(i))
        for j, (mn, m) in enumerate(ms.items()):
            for b in bs:
                if not ctx.thorough and ((i + j + b) % 2 or b > 1 and d > 2): continue
                for mode in ('training', 'evaluation', 'default') if j == i % 3 or ctx.thorough else ('training',):
                    name = '%s/%s/%s -> %s/%s/%d rows' % (mode, g, X.show(ei), X.show(eo), mn, b)
                    concrete = (i + b) % 2 == 0
                    def f(*a, g=g, ei=ei, eo=eo, m=m, b=b, mode=mode, concrete=concrete, G=G0):
                        Gs, x = a[:b], a[b]
                        count = [0]
                        def samples(N, *r, **k):
                            count[0] += 1
                            if N > b: return jnp.concatenate([jnp.stack(Gs), jnp.zeros((N - b,) + Gs[0].shape)])
                            return jnp.stack(Gs[:N])
                        drawn = [0]
                        def sample(*r):
                            drawn[0] += 1
                            return Gs[(drawn[0] - 1) % b]
                        G.samples, G.sample = samples, sample
                        flags = []
                        def model(x, training): flags.append(training); return m(x, training)
                        def model_kw(x, training=True): return model(x, training)
                        ri, ro = X.build(ei, gs, deferred=True), X.build(eo, gs, deferred=True)
                        if concrete: ri, ro = ri(G), ro(G)
                        aug = GroupAugmentation(model_kw, ri, ro, G)
                        out = aug(x, training=True) if mode == 'training' else aug(x) if mode == 'default' else aug(x, training=False)
                        if mode == 'evaluation': return [out], [m(x, False)]
                        y = m(jnp.stack([X.rho(ei, {g: Gs[k]}, gs) @ x[k] for k in range(b)]), True)
                        return [out], [jnp.stack([X.rho(eo, {g: jnp.linalg.inv(Gs[k])}, gs) @ y[k] for k in range(b)])]
                    ctx.identity(name, f, [(Orth if gs[g].orth else GL)('M%d' % k, d) for k in range(b)] + [Free('x', b, ni)])
    def wrong(M, N, x):
        y = jnp.stack([M @ x[0], N @ x[1]])
        return [jnp.stack([jnp.linalg.inv(M) @ y[0] ** 2, jnp.linalg.inv(N) @ y[1] ** 2])], [jnp.stack([jnp.linalg.inv(N) @ y[0] ** 2, jnp.linalg.inv(M) @ y[1] ** 2])]
    ctx.vacuity('vacuity', wrong, [GL('M', 2), GL('N', 2), Free('x', 2, 2)])
