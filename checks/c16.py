"""C16: the linear layer of every framework is the orthogonal projection of its weights onto the equivariant maps."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Free
from symx import exprs as X, layers as L, poly, jx, subspace as S
SHARDS = {'quick': 8, 'thorough': 8}


def projector(e, gs):
    """the orthogonal projector onto the common kernel of the constraints, in double precision"""
    C = S.constraint_matrix(e, gs)
    _, s, vh = np.linalg.svd(C, full_matrices=True)
    r = int((s > 1e-9 * max(1.0, s.max() if len(s) else 1)).sum())
    return (vh[r:].T @ vh[r:]).real


def family(gs, thorough):
    out = []
    for g in ('SO2', 'SL2', 'S3', 'SO3', 'O2', 'Shear', 'Weights') + (('Sp1', 'DShear', 'Heis', 'Z3', 'SL2xS2', 'SO11p', 'D4', 'SO3xS2', 'O3') if thorough else ('Z3',)):
        if g not in gs: continue
        v, d = X.V(g), X.D(X.V(g))
        P = [(v, v), (X.plus(v, X.Sc), X.plus(X.Sc, v)), (X.n(3, v), X.n(2, X.Sc)), (X.plus(X.pw(v, 2), v), X.plus(v, X.Sc)), (X.Sc, X.pw(v, 2)), (X.pw(v, 2), X.plus(v, X.Sc, v)),
             (X.plus(v, X.Sc, v), X.plus(v, X.pw(v, 2))), (v, X.pw(v, 2)), (X.plus(X.Sc, X.n(2, v)), X.plus(X.n(3, v), X.Sc)), (X.pw(v, 2), v), (X.n(4, X.Sc), X.n(2, X.Sc))]
        if not gs[g].orth:
            P += [(d, v), (X.plus(v, d), X.plus(d, v)), (X.times(v, d), X.plus(v, d)), (X.plus(d, X.Sc), X.times(d, v)), (d, d), (X.plus(X.times(d, v), v), X.plus(X.Sc, d)), (X.plus(d, X.times(v, d), X.Sc), X.plus(v, X.Sc, v))]
        out += [([g], a, b) for a, b in P]
    for a, b in (('SL2', 'S3'), ('SO2', 'Z3')) + ((('SO3', 'S2'), ('SL2', 'SO11p'), ('S3', 'S2')) if thorough else ()):
        if a not in gs or b not in gs: continue
        va, vb = X.V(a), X.V(b)
        for o in ((a, b), (b, a)):
            out += [(o, X.plus(va, vb), X.plus(vb, X.Sc)), (o, X.times(va, vb), X.plus(va, vb)), (o, X.plus(vb, X.Sc, va), X.times(vb, va)), (o, X.plus(X.times(va, vb), X.Sc), X.plus(X.Sc, X.times(vb, va)))]
    return out


def run(ctx):
    gs = X.groups()
    ctx.encodes('objax.Linear.__call__', 'pytorch.Linear.forward', 'flax._Linear.__call__', 'haiku.hkLinear.__call__', 'equivariant_projector', 'torchify_fn', 'SumRep.equivariant_projector', 'DirectProduct.equivariant_projector')
    ctx.assume('exact real arithmetic in the layers (the projector is what the library computed in float32); torch tensors are replaced by a wrapper around traced values')
    lim = 220 if ctx.thorough else 64
    ctx.bound('all weights, biases, inputs in [-1,1] and batches of 2; input times output dimension <= %d; tolerance 5e-3' % lim)
    k = 0
    for names, ei, eo in family(gs, ctx.thorough):
        if X.size(ei, gs) * X.size(eo, gs) > lim: continue
        k += 1
        for j, fw in enumerate(L.FRAMEWORKS):
            if not ctx.thorough and (j + k) % 2 and all(gs[g].orth for g in names): continue
            name = '%s/%s -> %s%s' % (fw, X.show(ei), X.show(eo), '' if len(names) == 1 else '/' + '<'.join(names))
            if not ctx.mine(name): continue
            if len(names) > 1:
                with X.ordered(tuple(names), gs): layer(ctx, name, fw, names, ei, eo, gs)
            else: layer(ctx, name, fw, names, ei, eo, gs)
    def wrong(w, x):
        P = jnp.asarray(projector(X.times(X.V('SL2'), X.D(X.V('SL2'))), gs).astype(np.float32))
        return [(P @ w).reshape(2, 2) @ x], [w.reshape(2, 2) @ x]
    ctx.vacuity('vacuity', wrong, [Free('w', 4), Free('x', 2)], eps=5e-3)


def layer(ctx, name, fw, names, ei, eo, gs):
    ni, no = X.size(ei, gs), X.size(eo, gs)
    def go():
        L.seeded(ctx.seed)
        return L.wrap(fw, L.module(fw).Linear(X.build(ei, gs), X.build(eo, gs)), ni)
    try: net = ctx.real(go)
    except Exception as e:
        if type(e).__name__ == 'RealRaise': return ctx.violation(name, 'the code raises %s' % e)
        raise
    shapes = net.shapes()
    w = [i for i, s in enumerate(shapes) if s == (no, ni) or (len(s) == 2 and np.prod(s) == no * ni)]
    b = [i for i, s in enumerate(shapes) if s == (no,)]
    known = len(shapes) == 2 and len(w) == 1 and len(b) == 1 and shapes[w[0]] == (no, ni)
    PW = jnp.asarray(projector(X.times(eo, X.D(ei)), gs).astype(np.float32))
    PB = jnp.asarray(projector(eo, gs).astype(np.float32))
    ain, aout = X.actions(ei, gs, names), X.actions(eo, gs, names)
    def f(*a):
        ps, x, xb = list(a[:-2]), a[-2], a[-1]
        y = net.apply(ps, x)
        got, want = [net.apply(ps, xb)], [jnp.stack([net.apply(ps, xb[0]), net.apply(ps, xb[1])])]
        if known:
            got.append(y); want.append((PW @ ps[w[0]].reshape(-1)).reshape(no, ni) @ x + PB @ ps[b[0]])
        for (cont, A), (_, B) in zip(ain, aout):
            A, B = jnp.asarray(A.astype(np.float32)), jnp.asarray(B.astype(np.float32))
            if cont:
                got.append(jax.jvp(lambda z: net.apply(ps, z), (x,), (A @ x,))[1]); want.append(B @ y)
            else:
                got.append(net.apply(ps, A @ x)); want.append(B @ y)
        return got, want
    ctx._guard(name, f, [Free('p%d' % i, *s) for i, s in enumerate(shapes)] + [Free('x', ni), Free('xb', 2, ni)], eps=5e-3)
    if not known: ctx.assume('parameter layout of %s not recognised: equivariance only' % fw)
