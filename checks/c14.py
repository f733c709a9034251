"""C14: gated nonlinearities commute with the group for every input; gating adds one scalar per non-scalar, non-permutation type."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Free
from symx import exprs as X
from symx.torchshim import TT, shim
SHARDS = {'quick': 8, 'thorough': 8}


def terms(e, gs):
    """the summands of an expression after distributing products over sums: lists of (group or custom) factors"""
    t = e[0]
    if t == 'S': return [()]
    if t in 'VC': return [(e,)]
    if t == 'T': return terms(e[1], gs)
    if t == '+': return terms(e[1], gs) + terms(e[2], gs)
    if t == '*': return [a + b for a in terms(e[1], gs) for b in terms(e[2], gs)]
    if t == 'n': return terms(e[2], gs) * e[1]
    if t == 'i': return [()] * e[1] + terms(e[2], gs)
    if t == '^':
        out = [()]
        for _ in range(e[2]): out = [a + b for a in out for b in terms(e[1], gs)]
        return out


def gates(e, gs):
    return sum(1 for t in terms(e, gs) if any(not (f[0] == 'V' and gs[f[1]].perm) for f in t))


def frameworks():
    import emlp.nn.objax as ob, emlp.nn.flax as fl, emlp.nn.haiku as hk, emlp.nn.pytorch as pt
    def torch_nl(rep):
        m = pt.GatedNonlinearity(rep)
        def f(x):
            with shim(pt): return m(TT(x)).v
        return f
    return dict(objax=lambda r: ob.GatedNonlinearity(r), flax=lambda r: (lambda x: fl.GatedNonlinearity(r).apply({}, x)),
                haiku=lambda r: hk.GatedNonlinearity(r), torch=torch_nl)


def obligation(ctx, name, e, o, gs, fw, make):
    N, names, k = X.size(e, gs), sorted(X.gnames(e)), gates(e, gs)
    free = [g for g in names if not gs[g].perm]
    perms = [g for g in names if gs[g].perm]
    from emlp.nn import gated
    def f(*a):
        with X.ordered(o, gs):
            Ms, v, W = dict(zip(free, a)), a[len(free)], a[len(free) + 1]
            rep = X.build(e, gs)
            grep = gated(rep)
            if grep.size() != N + k: return [jnp.array([float(grep.size())])], [jnp.array([float(N + k)])]
            nl = make(rep)
            got, want = [jnp.array([float(grep.size())])], [jnp.array([float(N + k)])]
            y = nl(v)
            elements = [{g: jnp.eye(gs[g].d) for g in perms}] + [{q: (h if q == g else np.eye(gs[q].d)) for q in perms} for g in perms for h in gs[g].disc]
            for P in elements:
                R = X.rho(e, dict(Ms, **{q: jnp.asarray(h) for q, h in P.items()}), gs)
                got.append(nl(jnp.concatenate([R @ v[:N], v[N:]]))); want.append(R @ y)
                # the gated representation acts on the gates trivially
                M = X.element(e, gs, dict(Ms, **{q: jnp.asarray(h) for q, h in P.items()}))
                got.append(grep.rho(M) @ v); want.append(jnp.concatenate([R @ v[:N], v[N:]]))
            got.append(nl(W)); want.append(jnp.stack([nl(W[0]), nl(W[1])]))
            return got, want
    ctx.identity(name, f, [GL('M' + g, gs[g].d) for g in free] + [Free('v', N + k), Free('W', 2, N + k)])


def run(ctx):
    gs = X.groups()
    ctx.encodes('gated', 'gate_indices', 'objax.GatedNonlinearity.__call__', 'pytorch.GatedNonlinearity.forward', 'flax.GatedNonlinearity.__call__', 'haiku.GatedNonlinearity.__call__')
    ctx.assume('the sigmoid is an uninterpreted function of its argument, inv(M) by contract, exact real arithmetic; torch tensors are replaced by a wrapper around traced values')
    maxn = 48 if ctx.thorough else 27
    ctx.bound('all matrices of non-permutation groups, all generators of permutation groups, all inputs; representations of dimension <= %d, every direct-sum term over a single group or all-permutation' % maxn)
    fws = frameworks()
    fam = []
    for g in ('SO2', 'SL2', 'S3', 'SO3', 'SL2xS2', 'Tr2') + (('SL3', 'Sp1', 'O13', 'Z3', 'S4', 'D4', 'S3xZ2') if ctx.thorough else ('Z3', 'S3xZ2')):
        for e in X.single_group(g, gs[g].orth) + [X.Sc, X.n(3, X.Sc), X.plus(X.Sc, X.V(g), X.pw(X.V(g), 2), X.Sc, X.V(g)), X.plus(X.pw(X.V(g), 2), X.V(g), X.pw(X.V(g), 2))]:
            if e == X.Sc: continue
            if X.size(e, gs) <= maxn and not (gs[g].perm and 'C' in str(e)): fam.append(('one/%s' % X.show(e), e, None))
    for a, b in (('SL2', 'S3'), ('SO2', 'Z3'), ('SL2', 'SO2')):
        for e in X.two_groups(a, b, gs[a].orth, gs[b].orth) + [X.plus(X.V(b), X.pw(X.V(a), 2), X.V(b), X.V(a)), X.plus(X.pw(X.V(b), 2), X.V(a), X.Sc, X.V(b))]:
            if X.size(e, gs) > maxn or len(X.gnames(e)) < 2: continue
            if any(len({f[1] for f in t}) > 1 and not all(gs[f[1]].perm for f in t) for t in terms(e, gs)): continue
            if e[0] == 'T' or e[0] == '*': continue
            for o in ((a, b), (b, a)): fam.append(('mixed/%s/order %s' % (X.show(e), '<'.join(o)), e, o))
    for k, (name, e, o) in enumerate(fam):
        use = list(fws) if ctx.thorough else [list(fws)[k % 4]] + (['objax'] if k % 4 and k % 2 else [])
        for fw in use: obligation(ctx, '%s/%s' % (fw, name), e, o, gs, fw, fws[fw])
    def wrong(M, v):       # gates that are transformed too
        rep = X.build(X.plus(X.V('SL2'), X.V('SL2')), gs)
        nl = fws['objax'](rep)
        R = X.block_diag(M, M, M)
        return [nl(R @ v)], [X.block_diag(M, M) @ nl(v)]
    ctx.vacuity('vacuity', wrong, [GL('M', 2), Free('v', 6)])
