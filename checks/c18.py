"""C18: the torch bridge returns the values of a jax function and its vector-Jacobian products."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import GL, Free, Pos, RealRaise
from symx import exprs as X, layers as L, poly
from symx.torchshim import TT, shim, gradients, is_tt, u
SHARDS = {'quick': 8, 'thorough': 8}


def functions():
    c = jnp.arange(1., 7.).reshape(2, 3)
    i = np.array([2, 0, 2, 1])
    return [('square', lambda x: x * x, [(3,)]), ('affine', lambda x: c @ x + 1, [(3,)]), ('product', lambda x, y: x * y, [(3,), (3,)]), ('matmul', lambda a, b: a @ b, [(2, 3), (3, 2)]),
            ('order', lambda x, y: x * x - 3 * y, [(2,), (2,)]), ('three', lambda x, y, z: (x @ y) * z + y.sum(), [(2, 3), (3,), (2,)]), ('two outputs', lambda x, y: (x * y, x.sum() * y), [(3,), (3,)]),
            ('outputs of different shape', lambda x: (x.sum(), x * x, jnp.outer(x, x)), [(2,)]), ('gather', lambda x: x[i] * c[0, 1], [(3,)]), ('scatter', lambda x: jnp.zeros(4).at[i].add(jnp.concatenate([x, x[:1]])), [(3,)]),
            ('transpose', lambda x: x.T.reshape(-1), [(2, 3)]), ('cumulative', lambda x: jnp.cumsum(x) * x, [(4,)]), ('concatenate', lambda x, y: jnp.concatenate([x, y * y, x]), [(2,), (3,)]),
            ('unused', lambda x, y: x * x, [(3,), (2,)]), ('sigmoid', lambda x: jax.nn.sigmoid(x) * x, [(3,)]), ('trigonometric', lambda x, y: jnp.sin(x) * jnp.cos(y) + jnp.tanh(x), [(2,), (2,)]),
            ('sum', lambda x: x.sum(), [(2, 2)]), ('mean', lambda x: x.mean(0), [(2, 3)]), ('vmap', jax.vmap(lambda v: v @ v), [(2, 3)]), ('inner derivative', lambda x: jax.grad(lambda v: (v ** 3).sum())(x), [(3,)]),
            ('kron', lambda a, b: jnp.kron(a, b), [(2, 2), (2, 2)]), ('clamp', lambda x: jnp.where(x > 0, x, 2 * x), [(3,)]), ('identity', lambda x: x, [(3,)]), ('swap', lambda x, y: (y, x), [(2,), (3,)]),
            ('jit', jax.jit(lambda x, y: x @ y), [(2, 3), (3,)]), ('constant output', lambda x: (x * x, jnp.ones(2)), [(2,)]), ('division', lambda x, y: x / (2 + y * y), [(2,), (2,)]), ('power', lambda x: x ** 3 + x ** 2, [(4,)])]


def flat(t): return list(t) if isinstance(t, (tuple, list)) else [t]


def run(ctx):
    gs = X.groups()
    ctx.encodes('torchify_fn', 'torch2jax', 'jax2torch', 'to_jax', 'to_pytorch', 'torched_fn.forward', 'torched_fn.backward')
    ctx.assume('torch tensors are replaced by a wrapper around traced values; torch calls forward with the flags of the inputs that need gradients and backward with one cotangent for each output')
    ctx.bound('all inputs and cotangents; listed functions of up to 3 arguments of up to 6 entries; all patterns of arguments that need gradients; the bridged functions of equivariant layers, dimension <= 30')
    for nm, f, shapes in functions():
        n = len(shapes)
        for needs in [tuple(bool(k >> j & 1) for j in range(n)) for k in range(2 ** n)]:
            name = '%s/%s' % (nm, ''.join('-g'[q] for q in needs))
            if ctx.mine(name): bridge(ctx, name, f, shapes, needs)
    for g in ('SO2', 'SL2', 'S3', 'Z3', 'SO3') + (('O2', 'Sp1', 'D4') if ctx.thorough else ()):
        v, d = X.V(g), X.D(X.V(g))
        for ei, eo in ((v, X.plus(v, X.Sc)), (X.plus(v, X.Sc, v), v), (X.plus(v, X.pw(v, 2)), X.plus(X.Sc, v)), (X.plus(d, v), X.plus(X.Sc, d))):
            if X.size(ei, gs) * X.size(eo, gs) > (80 if ctx.thorough else 40): continue
            for cls in ('Linear', 'BiLinear', 'EMLPBlock'):
                name = '%s/%s -> %s' % (cls, X.show(ei), X.show(eo))
                if ctx.mine(name): bridged_layer(ctx, name, cls, ei, eo, gs)
    def wrong(x, y, c):
        return [jax.vjp(lambda a, b: a * a * b, x, y)[1](c)[0]], [x * y * c]
    ctx.vacuity('vacuity', wrong, [Free('x', 2), Free('y', 2), Free('c', 2)])


def bridge(ctx, name, f, shapes, needs):
    pt = L.module('torch')
    outs = [tuple(o.shape) for o in flat(jax.eval_shape(f, *[jnp.zeros(s) for s in shapes]))]
    n = len(shapes)
    def body(*a):
        xs, cs, later = a[:n], a[n:n + len(outs)], a[n + len(outs):]
        with shim(pt):
            g = ctx.real(lambda: pt.torchify_fn(f))
            with gradients(needs) as calls:
                y = flat(g(*[TT(x) for x in xs]))
                got, want = [u(q) for q in y], flat(f(*xs))
                if any(needs):
                    if not calls: raise ValueError('no differentiable call was made')
                    cls, c, args, out = calls[-1]
                    g(*[TT(x) for x in later])                             # another call comes between the two passes, and the
                    flat(cls.backward(c, *[TT(q + 1) for q in cs]))        # graph is differentiated more than once
                    grads = flat(cls.backward(c, *[TT(q) for q in cs]))
                    true = jax.vjp(f, *xs)[1](tuple(cs) if len(outs) > 1 or isinstance(f(*xs), (tuple, list)) else cs[0])
                    if len(grads) != n: return [jnp.array(float(len(grads)))], [jnp.array(float(n))]
                    for k in range(n):
                        if needs[k]:
                            got.append(jnp.zeros(shapes[k]) if grads[k] is None else u(grads[k])); want.append(true[k])
        return got, want
    ctx._guard(name, body, [Free('x%d' % k, *s) for k, s in enumerate(shapes)] + [Free('c%d' % k, *s) for k, s in enumerate(outs)] + [Free('later%d' % k, *s) for k, s in enumerate(shapes)], eps=1e-3)
    autograd(ctx, name, pt, f, shapes, outs, needs)


def autograd(ctx, name, pt, f, shapes, outs, needs):
    """the stand-ins agree with torch's own autograd on one input"""
    import torch
    if ctx.values is not None or ctx.errors and ctx.errors[-1][0] == name: return
    rng = ctx.rng(name + '/torch')
    xs, cs = [rng.uniform(-1, 1, s).astype(np.float32) for s in shapes], [rng.uniform(-1, 1, s).astype(np.float32) for s in outs]
    ts = [torch.tensor(x, requires_grad=q) for x, q in zip(xs, needs)]
    try:
        y = ctx.real(lambda: flat(pt.torchify_fn(f)(*ts)))
        grads = []
        if any(needs):
            used = [(q, torch.tensor(c)) for q, c in zip(y, cs) if q.requires_grad]
            if not used: return ctx.violation(name, 'the outputs seen by torch do not depend on the inputs that need gradients', {'x%d' % k: x.tolist() for k, x in enumerate(xs)})
            grads = ctx.real(lambda: torch.autograd.grad([q for q, _ in used], [t for t, q in zip(ts, needs) if q], [c for _, c in used], allow_unused=True))
    except RealRaise as e:
        return ctx.violation(name, 'the code raises %s' % e, {'x%d' % k: x.tolist() for k, x in enumerate(xs)})
    except RuntimeError as e:
        return ctx.violation(name, 'torch cannot differentiate: %s' % str(e)[:200], {'x%d' % k: x.tolist() for k, x in enumerate(xs)})
    want = [np.asarray(q) for q in flat(f(*map(jnp.asarray, xs)))]
    r = jax.vjp(f, *map(jnp.asarray, xs))
    true = r[1](tuple(map(jnp.asarray, cs)) if isinstance(r[0], (tuple, list)) else jnp.asarray(cs[0]))
    gap = max([np.abs(a.detach().numpy() - b).max() for a, b in zip(y, want)] + [np.abs((np.zeros(b.shape) if a is None else a.numpy()) - np.asarray(b)).max() for a, b in zip(grads, [t for t, q in zip(true, needs) if q])])
    if gap > 1e-3 and not any(v[0] == name for v in ctx.violations): ctx.violation(name, 'values or gradients seen by torch differ by %.3g' % gap, {'x%d' % k: x.tolist() for k, x in enumerate(xs)})
    ctx.validated += 1


def bridged_layer(ctx, name, cls, ei, eo, gs):
    """every bridged call made by a layer: its backward is the vector-Jacobian product of its forward"""
    pt = L.module('torch')
    def go():
        L.seeded(ctx.seed)
        np.random.seed(ctx.seed)
        return L.wrap('torch', getattr(pt, cls)(X.build(ei, gs), X.build(eo, gs)), X.size(ei, gs))
    try: net = ctx.real(go)
    except Exception as e:
        if type(e).__name__ == 'RealRaise': return ctx.violation(name, 'the code raises %s' % e)
        raise
    def body(x, k, *ps):
        got, want = [], []
        with gradients('all') as calls, shim(pt):
            net.apply(list(ps), x)
            if not calls: raise ValueError('no differentiable call was made')
            for fc, c, args, out in list(calls):
                ys = flat(out)
                cs = [u(y) * 0 + jnp.cos(jnp.arange(u(y).size, dtype=jnp.float32)).reshape(u(y).shape) * k[0] + k[1] * u(y) for y in ys]
                grads = flat(fc.backward(c, *[TT(q) for q in cs]))
                tt = [i for i, a in enumerate(args) if is_tt(a)]
                def again(*vals):
                    full = list(args)
                    for i, v in zip(tt, vals): full[i] = TT(v)
                    from symx.torchshim import Context
                    return [u(q) for q in flat(fc.forward(Context([False] * len(args)), *full))]
                true = jax.vjp(again, *[u(args[i]) for i in tt])[1](cs)
                for i, t in zip(tt, true): got.append(u(grads[i])); want.append(t)
        return got, want
    ctx._guard(name, body, [Free('x', X.size(ei, gs)), Free('k', 2)] + [Free('p%d' % i, *s) for i, s in enumerate(net.shapes())], eps=5e-3)
