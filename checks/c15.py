"""C15: the cheap bilinear layer is equivariant for every parameter and input, and uses exactly the parameters it declares."""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Free, Ctx
from symx import exprs as X, layers as L, poly, jx
from symx.poly import as_poly
SHARDS = {'quick': 8, 'thorough': 8}


def types(e, gs, dual=False):
    """the summands as multisets of factors"""
    t = e[0]
    if t == 'S': return [()]
    if t in 'VC': return [((e, dual and not gs[e[1]].orth),)]
    if t == 'T': return types(e[1], gs, not dual)
    if t == '+': return types(e[1], gs, dual) + types(e[2], gs, dual)
    if t == '*': return [tuple(sorted(a + b)) for a in types(e[1], gs, dual) for b in types(e[2], gs, dual)]
    if t == 'n': return types(e[2], gs, dual) * e[1]
    if t == 'i': return [()] * e[1] + types(e[2], gs, dual)
    if t == '^':
        out = [()]
        for _ in range(e[2]): out = [tuple(sorted(a + b)) for a in out for b in types(e[1], gs, dual)]
        return out


def count(ein, eout, gs):
    xt = types(ein, gs)
    wt = types(X.times(eout, X.D(ein)), gs)
    size = lambda t: int(np.prod([X.size(f[0], gs) for f in t])) if t else 1
    return sum(wt.count(t) * min(xt.count(t), size(t)) for t in set(xt) if t != ())


@contextlib.contextmanager
def draws(kind):
    """which copies of each type of the input are used"""
    old = np.random.choice
    if kind != 'random':
        pick = lambda n, k: np.arange(k) if kind == 'first' else np.arange(n - k, n)[::-1] if kind == 'last' else np.full(k, n - 1)
        np.random.choice = lambda n, k=None, **kw: pick(n if isinstance(n, int) else len(n), k)
    try: yield
    finally: np.random.choice = old


def family(gs, thorough):
    out = []
    for g in ('SO2', 'SL2', 'S3', 'Shear') + (('SO3', 'Heis', 'DShear', 'Weights', 'Sp1', 'Z3', 'SL2xS2', 'SO11p', 'D4') if thorough else ('SO3',)):
        v, d = X.V(g), X.D(X.V(g))
        P = [(v, v), (X.plus(v, X.Sc), X.plus(v, X.Sc)), (X.n(3, v), X.n(2, X.Sc)), (X.plus(X.n(3, v), X.Sc), v), (X.plus(v, X.pw(v, 2)), v), (X.pw(v, 2), X.plus(X.Sc, v)),
             (X.plus(v, X.Sc, v, X.Sc), X.plus(X.Sc, v, X.Sc)), (X.times(v, X.plus(v, X.Sc)), X.plus(v, X.Sc, v)), (X.plus(X.n(5, v), X.pw(v, 2)), X.plus(v, X.Sc)), (X.n(2, X.pw(v, 2)), v),
             (X.plus(X.Sc, X.pw(v, 2), v, X.pw(v, 2)), X.plus(v, X.Sc)), (X.Sc, v), (X.n(2, X.Sc), X.n(3, X.Sc)), (v, X.Sc), (X.plus(X.Sc, X.n(4, v)), X.plus(v, X.Sc, v)),
             (X.plus(X.pw(v, 3), v), X.plus(X.pw(v, 2), v)), (X.plus(X.n(3, v), X.pw(v, 2)), X.plus(X.n(3, v), X.Sc)), (X.plus(v, X.pw(v, 2)), X.plus(X.n(9, X.Sc), v)), (X.plus(v, X.Sc), X.plus(X.n(9, X.Sc), v))]
        if not gs[g].orth:
            P += [(d, v), (X.plus(v, d), X.plus(d, v)), (X.times(v, d), X.plus(v, d)), (X.plus(d, X.Sc, X.times(d, v)), X.plus(X.times(v, d), v)), (X.plus(X.n(3, d), v, X.Sc), X.plus(d, v, X.Sc)),
                  (X.plus(X.times(v, d), X.n(2, v)), X.plus(v, X.Sc)), (X.plus(X.times(d, v), X.pw(d, 2), v), X.plus(v, d, X.Sc)), (X.plus(d, X.n(2, X.Sc), X.n(3, v)), X.plus(X.n(2, v), X.Sc, d))]
        out += [(g, a, b) for a, b in P]
    return out


def run(ctx):
    gs = X.groups()
    ctx.encodes('bilinear_weights', 'objax.BiLinear.__call__', 'pytorch.BiLinear.forward', 'flax._BiLinear.__call__', 'haiku.hkBiLinear.__call__', 'SumRep.as_dict', 'SumRep.canonicalize')
    ctx.assume('inv(M) by contract, exact real arithmetic; torch tensors are replaced by a wrapper around traced values')
    lim = 400 if ctx.thorough else 130
    ctx.bound('all parameters, inputs (and batches of 2) and all group matrices (weights) or all generators (layers); input times output dimension <= %d; index draws: random, first copies, last copies, one copy repeated' % lim)
    from emlp.reps import bilinear_weights
    k = 0
    for g, ei, eo in family(gs, ctx.thorough):
        ni, no = X.size(ei, gs), X.size(eo, gs)
        if ni * no > lim: continue
        k += 1
        label = '%s -> %s' % (X.show(ei), X.show(eo))
        for kind in ('random', 'first', 'last', 'same') if ctx.thorough else [('random', 'first', 'last', 'same')[(k + j) % 4] for j in range(2)]:
            name = 'weights/%s/%s' % (label, kind)
            if ctx.mine(name): weights(ctx, name, g, ei, eo, gs, kind, bilinear_weights)
        for j, fw in enumerate(L.FRAMEWORKS):
            if not ctx.thorough and gs[g].orth and (j + k) % 2: continue
            name = '%s/%s' % (fw, label)
            if ctx.mine(name): layer(ctx, name, fw, g, ei, eo, gs, ('random', 'last')[(j + k) // 2 % 2])
        name = 'parameters/%s' % label
        if ctx.mine(name): parameters(ctx, name, g, ei, eo, gs, bilinear_weights)
    ei, eo = X.plus(X.V('SL2'), X.D(X.V('SL2'))), X.plus(X.Sc, X.V('SL2'))
    def wrong(M, x, p):
        n, W = bilinear_weights(X.build(eo, gs), X.build(ei, gs))
        return [W(p, X.rho(ei, {'SL2': M}, gs) @ x)], [W(p, x)]
    with draws('first'): ctx.vacuity('vacuity', wrong, [GL('M', 2), Free('x', 4), Free('p', count(ei, eo, gs))])


def build(ctx, name, ei, eo, gs, kind, bilinear_weights):
    np.random.seed(ctx.seed + len(name))
    with draws(kind): return bilinear_weights(X.build(eo, gs), X.build(ei, gs))


def weights(ctx, name, g, ei, eo, gs, kind, bilinear_weights):
    """vec W(p, rho_in(M) x) = (rho_out(M) x rho_in(M)^*) vec W(p, x) for every matrix M"""
    ni, no, want_dim = X.size(ei, gs), X.size(eo, gs), count(ei, eo, gs)
    ew = X.times(eo, X.D(ei))
    made = {}
    def f(M, p, x, xb):
        if 'w' not in made: made['w'] = build(ctx, name, ei, eo, gs, kind, bilinear_weights)
        n, W = made['w']
        if n != want_dim: return [jnp.array(float(n))], [jnp.array(float(want_dim))]
        R = X.rho(ei, {g: M}, gs)
        w = W(p, x)
        wb = W(p, xb)
        return [W(p, R @ x).reshape(-1), wb, w], [X.rho(ew, {g: M}, gs) @ w.reshape(-1), jnp.stack([W(p, xb[0]), W(p, xb[1])]), w.reshape(no, ni)]
    ctx._guard(name, f, [GL('M', gs[g].d), Free('p', want_dim), Free('x', ni), Free('xb', 2, ni)])


def layer(ctx, name, fw, g, ei, eo, gs, kind):
    """the layer commutes with every generator, and is a tenth of its weights applied to the input"""
    ni, no = X.size(ei, gs), X.size(eo, gs)
    made = {}
    def go():
        np.random.seed(ctx.seed + len(name))
        with draws(kind): return L.wrap(fw, L.module(fw).BiLinear(X.build(ei, gs), X.build(eo, gs)), ni)
    try: net = ctx.real(go)
    except Exception as e:
        if type(e).__name__ == 'RealRaise': return ctx.violation(name, 'the code raises %s' % e)
        raise
    acts_in, acts_out = X.actions(ei, gs, [g]), X.actions(eo, gs, [g])
    def f(*a):
        ps, x, xb = list(a[:-2]), a[-2], a[-1]
        y = net.apply(ps, x)
        got, want = [net.apply(ps, xb)], [jnp.stack([net.apply(ps, xb[0]), net.apply(ps, xb[1])])]
        for (cont, A), (_, B) in zip(acts_in, acts_out):
            A, B = jnp.asarray(A.astype(np.float32)), jnp.asarray(B.astype(np.float32))
            if cont:
                got.append(jax.jvp(lambda z: net.apply(ps, z), (x,), (A @ x,))[1]); want.append(B @ y)
            else:
                got.append(net.apply(ps, A @ x)); want.append(B @ y)
        return got, want
    ctx._guard(name, f, [Free('p%d' % i, *s) for i, s in enumerate(net.shapes())] + [Free('x', ni), Free('xb', 2, ni)], eps=2e-3)


def parameters(ctx, name, g, ei, eo, gs, bilinear_weights):
    """every declared parameter changes the weights, and the layer is not degenerate"""
    def body():
        poly.reset()
        n, W = build(ctx, name, ei, eo, gs, 'first', bilinear_weights)
        if n != count(ei, eo, gs): return ctx.violation(name, '%d parameters, expected %d' % (n, count(ei, eo, gs)))
        outs, arrs = ctx.symbolic(lambda p, x: W(p, x), [Free('p', n), Free('x', X.size(ei, gs))])
        used = set()
        for q in jx.to_obj(outs[0]).reshape(-1): used |= set(as_poly(q).vars())
        idx = [next(iter(q.t))[0] for q in arrs[0].reshape(-1)]
        unused = [i for i, v in enumerate(idx) if v not in used]
        if unused: return ctx.violation(name, 'parameters %s do not influence the weights' % unused)
        ctx.done(name)
    ctx.obligation_mine(name, body)
