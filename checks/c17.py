"""C17: whole networks commute with the group for every input, whichever way their hidden layers are specified."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free
from symx import exprs as X, layers as L, poly
SHARDS = {'quick': 8, 'thorough': 8}
EPS = 5e-3
MERGE = 1e-4


def specs(v, d, orth, thorough):
    """(name, ch, layers): ch is an int, an expression, or a list of them"""
    P = [('7', 7, 1), ('rep', X.plus(v, X.n(2, X.Sc)), 1), ('rep', X.plus(v, X.Sc), 2), ('reps', [X.plus(X.Sc, v), X.plus(v, X.Sc, X.Sc)], None), ('ints', [6, 4], None), ('mixed', [5, X.plus(v, X.Sc)], None),
         ('noncanonical', X.plus(X.pw(v, 2), X.Sc, v), 1), ('single', v, 1), ('power', X.pw(v, 2), 1), ('0', X.plus(v, X.Sc), 0), ('scalars', X.n(3, X.Sc), 1)]
    if not orth: P += [('dual', X.plus(d, v, X.Sc), 1), ('mixed tensor', X.plus(X.times(v, d), d), 1), ('duals', [X.plus(d, X.Sc), X.plus(v, X.Sc)], None)]
    if thorough: P += [('12', 12, 1), ('many', X.plus(X.n(2, v), X.Sc, v), 1), ('three', [X.plus(v, X.Sc)] * 3, None), ('9', 9, 2)]
    return P


def ends(v, d, orth):
    P = [(v, v), (X.plus(v, X.Sc), X.plus(X.Sc, v)), (X.plus(v, v), X.Sc), (X.plus(X.Sc, X.n(2, v)), X.pw(v, 2))]
    if not orth: P += [(X.plus(v, d), X.plus(d, X.Sc)), (v, X.times(v, d))]
    return P


def family(gs, thorough):
    k = 0
    for g in ('SO2', 'SL2', 'S3', 'O2', 'Z3', 'D4', 'SO11p', 'Shear') + (('SO3', 'Weights', 'Heis', 'DShear', 'Sp1', 'S2', 'C4', 'SL2xS2', 'O11', 'SO2eR3') if thorough else ('SO3',)):
        v, d = X.V(g), X.D(X.V(g))
        E = ends(v, d, gs[g].orth)
        for i, (nm, ch, nl) in enumerate(specs(v, d, gs[g].orth, thorough)):
            k += 1
            for j, fw in enumerate(L.FRAMEWORKS):
                if not thorough and (k + j) % 4 and not (fw == 'objax' and k % 3 == 0): continue
                ei, eo = E[(i + j + k) % len(E)]
                if X.size(ei, gs) > 6: ei, eo = E[(i + j + k) % 2]
                yield g, fw, 'EMLP', ei, eo, nm, ch, nl
            if i % 4 == 1 or thorough: yield (g, 'objax', 'EMLPode', X.plus(v, v) if gs[g].d < 3 else v, E[i % len(E)][1], nm, ch, nl)
            if i % 4 == 3 or thorough: yield (g, 'objax', 'EMLPH', v, (X.Sc, X.n(2, X.Sc))[i // 4 % 2], nm, ch, nl)


def too_big(ei, ch, nl, gs, g, thorough):
    sizes = [c if isinstance(c, int) else X.size(c, gs) for c in (ch if isinstance(ch, list) else [ch] * nl)]
    return any(s > (14 if thorough else 9) for s in sizes) or (len(sizes) > 1 and (max(sizes) > (8 if thorough else 6) or X.size(ei, gs) > (4 if thorough else 3)) or len(sizes) == 1 and X.size(ei, gs) > 6)


def run(ctx):
    gs = X.groups()
    ctx.encodes('EMLP.__init__', 'EMLP.__call__', 'EMLPBlock', 'Linear', 'BiLinear', 'GatedNonlinearity', 'gated', 'gate_indices', 'uniform_rep', 'EMLPode', 'EMLPH', 'torchify_fn', 'Sequential')
    ctx.assume('weights are the ones the network was seeded with; the sigmoid is an uninterpreted function with values in (0,1) whose derivative is s(1-s); '
               'sigmoids of arguments which differ by at most 1e-4 are identified (the sigmoid is 1/4-Lipschitz)')
    ctx.bound('all inputs in [-1,1]; hidden dimension <= %d, up to %d hidden layers; Lie algebra generators (infinitesimal equivariance) and discrete generators; tolerance %g' % ((14, 3, EPS) if ctx.thorough else (9, 2, EPS)))
    ctx.merge = MERGE
    seen = set()
    for g, fw, cls, ei, eo, nm, ch, nl in family(gs, ctx.thorough):
        if too_big(ei, ch, nl, gs, g, ctx.thorough): continue
        name = '%s.%s/%s/%s -> %s/%s%s' % (fw, cls, g, X.show(ei), X.show(eo), nm if nm != 'rep' else X.show(ch), '' if nl is None else 'x%d' % nl)
        if name in seen: continue
        seen.add(name)
        if ctx.mine(name): network(ctx, name, g, fw, cls, ei, eo, ch, nl, gs)
    def wrong(x):
        return [jax.nn.sigmoid(x[0]) * x], [jax.nn.sigmoid(x[1]) * x]
    ctx.vacuity('vacuity', wrong, [Free('x', 3)], eps=EPS)


def network(ctx, name, g, fw, cls, ei, eo, ch, nl, gs):
    ni = X.size(ei, gs)
    hid = lambda c: c if isinstance(c, int) else X.build(c, gs, True)
    def go():
        L.seeded(ctx.seed + len(name))
        kw = dict(ch=[hid(c) for c in ch] if isinstance(ch, list) else hid(ch))
        if nl is not None: kw['num_layers'] = nl
        m = getattr(L.module(fw), cls)(X.build(ei, gs, True), X.build(eo, gs, True), gs[g].G, **kw)
        return L.wrap(fw, m, ni, seed=ctx.seed, args=(jnp.zeros(()),) if cls == 'EMLPode' else ())
    try: net = ctx.real(go)
    except Exception as e:
        if type(e).__name__ == 'RealRaise': return ctx.violation(name, 'the code raises %s' % e)
        raise
    rng = np.random.default_rng(ctx.seed + len(name))
    ps = [jnp.asarray((v + .3 * rng.standard_normal(v.shape)).astype(np.float32)) for v in net.values]     # no weight is left at zero
    ain, aout = X.actions(ei, gs, [g]), X.actions(eo, gs, [g])
    hamiltonian = cls == 'EMLPH'
    def f(x, xb):
        y = net.apply(ps, x)
        if hamiltonian: y = y.reshape(-1); got, want = [y], [y]
        elif cls == 'EMLPode' or nl == 0 or ni > 3: got, want = [y.reshape(-1)], [y]
        else: got, want = [net.apply(ps, xb)], [jnp.stack([net.apply(ps, xb[0]), net.apply(ps, xb[1])])]
        for (cont, A), (_, B) in zip(ain, aout):
            A, B = jnp.asarray(A.astype(np.float32)), jnp.asarray((B[:1, :1] if hamiltonian else B).astype(np.float32))
            if cont:
                got.append(jax.jvp(lambda z: net.apply(ps, z).reshape(-1), (x,), (A @ x,))[1]); want.append(B @ y)
            else:
                got.append(net.apply(ps, A @ x).reshape(-1)); want.append(B @ y)
        return got, want
    ctx._guard(name, f, [Free('x', ni), Free('xb', 2, ni)], eps=EPS, tol=EPS / 2)

