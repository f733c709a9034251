"""C03: representations are homomorphisms: ρ(gh) = ρ(g)ρ(h), ρ(1) = 1, brackets and the dual pairing are preserved."""
import numpy as np
import jax.numpy as jnp
from symx.core import GL, Free
from symx import exprs as X
SHARDS = {'quick': 8, 'thorough': 8}


def run(ctx):
    gs = X.groups()
    ctx.encodes('*.rho', '*.drho', 'Dual', 'LazyKron.invT', 'LazyDirectSum.invT', '_ProductLinearOperator.invT')
    ctx.assume('inv(M) is the matrix X with MX = I; inv(gh) = inv(h) inv(g); exact real arithmetic')
    maxn = 36 if ctx.thorough else 18
    ctx.bound('all pairs of invertible real matrices of dimension 2-3, expressions of dimension <= %d' % maxn)
    fam = X.family(gs, ctx.thorough, maxn, ctx.seed, 60 if ctx.thorough else 16, thin=4, offset=2, triples=())
    for name, e, o in fam:
        N, names = X.size(e, gs), sorted(X.gnames(e))
        k = len(names)
        def mult(*a, e=e, o=o, names=names, k=k):
            with X.ordered(o, gs):
                Ms, Ns, v = dict(zip(names, a[:k])), dict(zip(names, a[k:2 * k])), a[2 * k]
                rep = X.build(e, gs)
                r = lambda Z: rep.rho(X.element(e, gs, Z))
                both = r({g: Ms[g] @ Ns[g] for g in names}) @ v
                return [both, r({g: jnp.eye(gs[g].d) for g in names}) @ v], [r(Ms) @ (r(Ns) @ v), v]
        ctx.identity('group/' + name, mult, [GL('M' + g, gs[g].d) for g in names] + [GL('N' + g, gs[g].d) for g in names] + [Free('v', N)])
        if 'C' in str(e): continue
        def alg(*a, e=e, o=o, names=names, k=k):
            with X.ordered(o, gs):
                As, Bs, v, s = dict(zip(names, a[:k])), dict(zip(names, a[k:2 * k])), a[2 * k], a[2 * k + 1]
                rep = X.build(e, gs)
                r = lambda Z: rep.drho(X.element(e, gs, Z))
                br = {g: As[g] @ Bs[g] - Bs[g] @ As[g] for g in names}
                lin = {g: As[g] + s * Bs[g] for g in names}
                return [r(br) @ v, r(lin) @ v], [r(As) @ (r(Bs) @ v) - r(Bs) @ (r(As) @ v), r(As) @ v + s * (r(Bs) @ v)]
        ctx.identity('algebra/' + name, alg, [Free('A' + g, gs[g].d, gs[g].d) for g in names] + [Free('B' + g, gs[g].d, gs[g].d) for g in names] + [Free('v', N), Free('s')])
        if all(not gs[g].orth for g in names):
            def pair(*a, e=e, o=o, names=names, k=k):
                with X.ordered(o, gs):
                    As, u, v = dict(zip(names, a[:k])), a[k], a[k + 1]
                    rep = X.build(e, gs)
                    d = rep.T.drho(X.element(e, gs, As)) @ u
                    return [(d * v).sum()], [-(u * (rep.drho(X.element(e, gs, As)) @ v)).sum()]
            ctx.identity('pairing/' + name, pair, [Free('A' + g, gs[g].d, gs[g].d) for g in names] + [Free('u', N), Free('v', N)])
    def wrong(M, N, v):
        rep = X.build(X.times(X.V('SL2'), X.D(X.V('SL2'))), gs)
        return [rep.rho(M @ N) @ v], [rep.rho(N) @ (rep.rho(M) @ v)]
    ctx.vacuity('vacuity', wrong, [GL('M', 2), GL('N', 2), Free('v', 4)])
