"""C02: the Lie algebra representation is the differential of the group representation."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free
from symx import exprs as X
SHARDS = {'quick': 8, 'thorough': 8}


def obligation(ctx, name, e, gs, order=None, deferred=False):
    N = X.size(e, gs)
    names = sorted(X.gnames(e))
    def f(*a):
        with X.ordered(order, gs):
            As = dict(zip(names, a))
            v, W = a[len(names)], a[len(names) + 1]
            rep = X.build(e, gs, deferred)
            if deferred: rep = rep(gs[names[0]].G)
            A = X.element(e, gs, As)
            R = rep.drho(A)
            O = X.drho(e, As, gs)
            got, want = [R @ v, R @ W, rep.drho_dense(A)], [O @ v, O @ W, O]
            if 'C' not in str(e):
                got.append(R.T @ v); want.append(O.T @ v)
                got.append(R.T @ W); want.append(O.T @ W)
            return got, want
    ctx.identity(name, f, [Free('A' + g, gs[g].d, gs[g].d) for g in names] + [Free('v', N), Free('W', N, 2)])


def differential(ctx, name, e, gs, order=None):
    """dρ(A) v = d/dt ρ(1 + tA) v at t = 0, the derivative taken by jax through the real group action"""
    N = X.size(e, gs)
    names = sorted(X.gnames(e))
    def f(*a):
        with X.ordered(order, gs):
            As = dict(zip(names, a))
            v = a[len(names)]
            rep = X.build(e, gs)
            act = lambda *Ms: rep.rho(X.element(e, gs, dict(zip(names, Ms)))) @ v
            d = jax.jvp(act, [jnp.eye(gs[g].d) for g in names], [As[g] for g in names])[1]
            orth = {g: jnp.zeros(()) for g in names}
            return [rep.drho(X.element(e, gs, As)) @ v], [d]
    ctx.identity(name, f, [Free('A' + g, gs[g].d, gs[g].d) for g in names] + [Free('v', N)])


def run(ctx):
    gs = X.groups()
    ctx.encodes('Rep.drho', 'Base.drho', 'Dual.drho', 'ScalarRep.drho', 'SumRep.drho', 'ProductRep.drho', 'DirectProduct.drho', 'LazyKronsum', 'LazyJVP', 'LazyDirectSum', 'LazyPerm', 'drho_dense')
    ctx.assume('float arithmetic is exact real arithmetic')
    maxn = 60 if ctx.thorough else 27
    ctx.bound('all real matrices A of dimension 2-4; expressions of the family of dimension <= %d' % maxn)
    fam = X.family(gs, ctx.thorough, maxn, ctx.seed, 120 if ctx.thorough else 24, thin=2, offset=1)
    for name, e, o in fam:
        obligation(ctx, name, e, gs, o)
    for i, (name, e, o) in enumerate(fam):
        if i % (2 if ctx.thorough else 5) == 0: differential(ctx, 'differential/' + name, e, gs, o)
        if o is None and e[0] not in 'VSC' and 'C' not in str(e) and i % 4 == 1 and len(X.gnames(e)) == 1: obligation(ctx, 'deferred/' + name, e, gs, deferred=True)
    for g in ('SL2', 'SO2'):
        v = X.V(g)
        for e in [('C', g), X.plus(('C', g), v), X.times(('C', g), v), X.plus(v, ('C', g), X.Sc)] + ([] if gs[g].orth else [X.D(('C', g)), X.plus(X.D(('C', g)), v)]):
            obligation(ctx, 'custom/%s' % X.show(e), e, gs)
            if e[0] != 'T': differential(ctx, 'custom/differential/%s' % X.show(e), e, gs)
    for g in ('SL2', 'SO2'):
        e = X.plus(X.times(X.V(g), X.V(g)), X.V(g))
        ctx.vacuity('vacuity/' + g, lambda A, v, e=e: ([X.build(e, gs).drho(A) @ v], [X.rho(e, {g: A}, gs) @ v]), [Free('A', 2, 2), Free('v', 6)])
