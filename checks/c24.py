"""C24: Standardize is the affine change of units of the wrapped model."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free, Pos, RealRaise
from symx import layers as L
from symx.torchshim import TT, shim, u
SHARDS = {'quick': 4, 'thorough': 8}


def models(ni, no, rng):
    A, B, c = [rng.integers(-2, 3, s).astype(np.float32) for s in ((no, ni), (no, ni), (no,))]
    return dict(affine=lambda x, t: x @ A.T + (1 if t else 3) * c,
                quadratic=lambda x, t: (x @ A.T) * (x @ B.T) + (c if t else 2 * c),
                cubic=lambda x, t: (x @ A.T) ** 3 - (0 if t else 1) * (x @ B.T),
                sigmoid=lambda x, t: jax.nn.sigmoid(x @ A.T) * (x @ B.T) + (0 if t else 1) * c)


def run(ctx):
    ctx.encodes('Standardize.__init__', 'Standardize.__call__', 'Standardize.forward')
    sizes = ((1, 1), (2, 1), (3, 2)) if not ctx.thorough else ((1, 1), (2, 1), (1, 3), (3, 2), (4, 4))
    ctx.bound('models from %s features to outputs (affine, quadratic, cubic, sigmoid), batches of 0-2 rows, statistics per coordinate or shared, with two or four entries, symbolic or the constants (0,1,0,1); objax and pytorch (flax and haiku define no Standardize)' % (sizes,))
    ctx.assume('exact real arithmetic; x/s is uninterpreted reciprocal times x; s > 0')
    for fw in ('objax', 'torch'):
        M = L.module(fw)
        if not hasattr(M, 'Standardize'): continue
        for ni, no in sizes:
            for j, (mn, m) in enumerate(models(ni, no, np.random.default_rng(ni * 7 + no)).items()):
                for count in (4, 2):
                    for shared in ('coordinate', 'scalar', 'mixed', 'constant'):
                        for b in (None, 1, 2):
                            for flag in (True, False):
                                for style in ('keyword', 'positional'):
                                    if not ctx.thorough and (j + count // 2 + (b or 0) + flag + ni + (style == 'keyword') + len(shared)) % 3: continue
                                    one(ctx, '%s/%s/%d->%d/%d entries/%s/%s rows/%s/%s' % (fw, mn, ni, no, count, shared, b, flag, style), fw, M, m, ni, no, count, shared, b, flag, style)
        nested(ctx, fw, M)
        for cls in ('MLP', 'EMLP'): network(ctx, '%s/%s' % (fw, cls), fw, M, cls)
    def wrong(x, s): return [(x - 1) / s], [(x / s - 1)]
    ctx.vacuity('vacuity', wrong, [Free('x', 2), Pos('s', 2)])


def call(fw, M, m, flags):
    """the model as a module of the framework"""
    if fw == 'objax':
        class Net(M.Module):
            def __call__(self, x, training):
                flags.append(training)
                return m(x, training)
        return Net()
    class Net(M.nn.Module):
        def forward(self, x, training):
            flags.append(training)
            return TT(m(u(x), training))
    return Net()


def one(ctx, name, fw, M, m, ni, no, count, shared, b, flag, style):
    pre = (() if b is None else (b,))
    si = () if shared == 'scalar' else (ni,)
    so = () if shared in ('scalar', 'mixed') else (no,)
    args = [Free('x', *pre, ni), Free('mi', *si), Pos('si', *si), Free('mo', *so), Pos('so', *so)]
    if shared == 'constant': args = args[:1]
    def f(x, *st):
        if shared == 'constant': st = (0, 1, 0, 1)
        flags = []
        w = (lambda q: TT(q) if hasattr(q, 'shape') else q) if fw == 'torch' else (lambda q: q)
        def go():
            net = M.Standardize(call(fw, M, m, flags), tuple(w(q) for q in st[:count]))
            return u(net(w(x), training=flag) if style == 'keyword' else net(w(x), flag))
        if fw == 'torch':
            with shim(M): y = go()
        else: y = go()
        mi, s, mo, t = st
        if len(flags) != 1 or flags[0] != flag: y = y + jnp.nan
        z = m((x - mi) / s, flag)
        return [y], [z if count == 2 else z * t + mo]
    ctx.identity(name, f, args)


def nested(ctx, fw, M):
    """two changes of units compose; one with the inverse statistics undoes the other"""
    m = models(2, 2, np.random.default_rng(5))['quadratic']
    def f(x, mi, si, mo, so, ni, ti):
        w = TT if fw == 'torch' else (lambda q: q)
        def go():
            inner = M.Standardize(call(fw, M, m, []), tuple(map(w, (mi, si, mo, so))))
            return u(M.Standardize(inner, tuple(map(w, (ni, ti))))(w(x), training=True))
        if fw == 'torch':
            with shim(M): y = go()
        else: y = go()
        return [y], [m(((x - ni) / ti - mi) / si, True) * so + mo]
    ctx.identity(fw + '/nested', f, [Free('x', 2), Free('mi', 2), Pos('si', 2), Free('mo', 2), Pos('so', 2), Free('ni', 2), Pos('ti', 2)])


def network(ctx, name, fw, M, cls):
    """the networks of the library, which take the flag Standardize passes on"""
    if not hasattr(M, cls): return
    from emlp.groups import SO
    from emlp.reps import V, Scalar
    w = TT if fw == 'torch' else (lambda q: q)
    if not ctx.mine(name): return
    def make():
        L.seeded(ctx.seed)
        return getattr(M, cls)(V + Scalar, 2 * V, SO(2), 4, 1)
    try:
        net = ctx.real(make)
        if fw == 'torch': layer, net = net, L.wrap('torch', net, 3)
    except RealRaise as e: return ctx.violation(name, 'the code raises %s' % e)
    def f(x, mi, si, mo, so):
        if fw == 'objax':
            plain = net((x - mi) / si)
            return [M.Standardize(net, (mi, si, mo, so))(x, training=t) for t in (True, False)], [plain * so + mo] * 2
        L.install(layer, dict(zip(net.names, map(jnp.asarray, net.values))))
        with shim(M):
            plain = layer(TT((x - mi) / si)).v
            return [M.Standardize(layer, tuple(map(w, (mi, si, mo, so))))(TT(x), training=t).v for t in (True, False)], [plain * so + mo] * 2
    ctx._guard(name, f, [Free('x', 1, 3), Free('mi', 3), Pos('si', 3), Free('mo', 4), Pos('so', 4)], eps=1e-3)
