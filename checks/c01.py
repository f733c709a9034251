"""C01: composite representations act as the block-diagonal / Kronecker / inverse-transpose matrix the expression denotes."""
import itertools
import numpy as np
import jax.numpy as jnp
from symx.core import GL, Free
from symx import exprs as X
SHARDS = {'quick': 8, 'thorough': 8}


def obligation(ctx, name, e, gs, deferred=False, order=None, lazy=True):
    N = X.size(e, gs)
    names = sorted(X.gnames(e))
    def f(*a):
        ctxm = X.order(order, gs) if order else None
        if ctxm: ctxm.__enter__()
        try:
            Ms = {g: M for g, M in zip(names, a)}
            v, W = a[len(names)], a[len(names) + 1]
            rep = X.build(e, gs, deferred)
            if deferred: rep = rep(gs[names[0]].G)
            M = Ms[names[0]] if len(names) == 1 else {gs[g].G: Ms[g] for g in names}
            R = rep.rho(M)
            O = X.rho(e, Ms, gs)
            got = [rep.rho_dense(M), R @ v, R @ W, jnp.array([float(rep.size())])]
            want = [O, O @ v, O @ W, jnp.array([float(N)])]
            if lazy:
                got += [R.T @ v]
                want += [O.T @ v]
            return got, want
        finally:
            if ctxm: ctxm.__exit__()
    ctx.identity(name, f, [GL('M' + g, gs[g].d) for g in names] + [Free('v', N), Free('W', N, 2)])


def run(ctx):
    gs = X.groups()
    ctx.encodes('Rep.__add__/__mul__/__pow__/__rmul__/T', 'SumRep.rho', 'ProductRep.rho', 'DirectProduct.rho', 'Dual.rho', 'Base.rho', 'ScalarRep.rho', 'Deferred*Rep.__call__',
                'SumRep.compute_canonical', 'ProductRep.compute_canonical', 'distribute_product', 'rep_permutation', 'LazyKron', 'LazyDirectSum', 'LazyPerm', 'rho_dense')
    ctx.assume('inv(M) is the matrix X with MX = I (contract of the linear algebra library), float arithmetic is exact real arithmetic')
    ctx.bound('all real matrices M of dimension 2-4; expressions of the listed family and seeded random ones, dimension <= %d' % (60 if ctx.thorough else 30))
    maxn = 60 if ctx.thorough else 30
    single = ['SO2', 'SL2', 'S3', 'SO3'] if not ctx.thorough else ['SO2', 'SL2', 'S3', 'SO3', 'SL3', 'Sp1', 'GL2', 'O13', 'SO11p', 'Z3', 'Tr2']
    for g in single:
        for e in X.single_group(g, gs[g].orth):
            if X.size(e, gs) > maxn: continue
            obligation(ctx, 'concrete/%s' % X.show(e), e, gs)
            if 'C' not in str(e) and X.gnames(e) and e[0] not in ('V',):
                obligation(ctx, 'deferred/%s' % X.show(e), e, gs, deferred=True)
    pairs = [('SL2', 'S3'), ('SO2', 'Z3'), ('SL2', 'SO11p')] if not ctx.thorough else [('SL2', 'S3'), ('SO2', 'Z3'), ('SL2', 'SO11p'), ('Sp1', 'SL3'), ('S2', 'SO2'), ('Z2', 'SL2')]
    for a, b in pairs:
        for e in X.two_groups(a, b, gs[a].orth, gs[b].orth):
            if X.size(e, gs) > maxn or len(X.gnames(e)) < 2: continue
            for o in ((a, b), (b, a)):
                obligation(ctx, 'mixed/%s/order %s' % (X.show(e), '<'.join(o)), e, gs, order=o)
    triples = [('S4', 'Z2', 'SO2')] if not ctx.thorough else [('S4', 'Z2', 'SO2'), ('SL2', 'Z3', 'O2'), ('Z2', 'SL2', 'S4')]
    for t in triples:
        for e in X.three_groups(*t):
            if X.size(e, gs) > maxn: continue
            for o in itertools.permutations(t) if ctx.thorough else [t, t[::-1], t[1:] + t[:1]]:
                obligation(ctx, 'mixed3/%s/order %s' % (X.show(e), '<'.join(o)), e, gs, order=o)
    rng = np.random.default_rng(ctx.seed)
    want = 150 if ctx.thorough else 40
    k = 0
    while k < want:
        names = [['SL2'], ['SL2', 'S3'], ['SO2', 'SL2'], ['S3']][rng.integers(4)]
        e = X.random_expr(rng, names, {}, int(rng.integers(2, 4)))
        if not 4 <= X.size(e, gs) <= maxn or not X.gnames(e): continue
        k += 1
        o = list(rng.permutation(names))
        obligation(ctx, 'random%d/%s' % (k, X.show(e)), e, gs, order=o if len(X.gnames(e)) > 1 else None)
    for g in ('SL2', 'SO2'):
        e = X.plus(X.times(X.V(g), X.V(g)), X.V(g))
        def wrong(M, v, W, g=g, e=e):
            R = X.build(e, gs).rho(M)
            return [R @ v], [X.rho(X.plus(X.V(g), X.times(X.V(g), X.V(g))), {g: M}, gs) @ v]
        ctx.vacuity('vacuity/' + g, wrong, [GL('M', 2), Free('v', 6), Free('W', 6, 2)])
