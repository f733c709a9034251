"""The layers of the four frameworks as pure functions of their parameters."""
import numpy as np
import jax
import jax.numpy as jnp
from .torchshim import TT, shim, install, shapes

FRAMEWORKS = ('objax', 'flax', 'haiku', 'torch')


class Net:
    """values: initial parameters (numpy), names; apply(list of parameters, x)"""
    def __init__(self, names, values, apply): self.names, self.values, self.apply = names, [np.asarray(v) for v in values], apply
    def shapes(self): return [v.shape for v in self.values]


def module(fw):
    import emlp.nn.objax as ob, emlp.nn.flax as fl, emlp.nn.haiku as hk, emlp.nn.pytorch as pt
    return dict(objax=ob, flax=fl, haiku=hk, torch=pt)[fw]


def wrap(fw, layer, nin, seed=0, args=()):
    """layer: an objax/torch/flax module instance or a haiku callable"""
    if fw == 'objax':
        import objax
        seen, vs, names = set(), [], []
        for n, v in layer.vars().items():
            if isinstance(v, objax.variable.TrainVar) and id(v) not in seen: seen.add(id(v)); vs.append(v); names.append(n)
        def apply(ps, x):
            old = [v.value for v in vs]
            for v, p in zip(vs, ps): v.assign(p) if tuple(v.value.shape) == tuple(np.shape(p)) else setattr(v, 'value', p)
            try: return layer(x, *args)
            finally:
                for v, o in zip(vs, old): v.assign(o)
        return Net(names, [v.value for v in vs], apply)
    if fw == 'flax':
        variables = layer.init(jax.random.PRNGKey(seed), jnp.zeros((1, nin)), *args)
        leaves, tree = jax.tree_util.tree_flatten(variables)
        names = ['.'.join(str(getattr(k, 'key', k)) for k in path) for path, _ in jax.tree_util.tree_flatten_with_path(variables)[0]]
        return Net(names, leaves, lambda ps, x: layer.apply(jax.tree_util.tree_unflatten(tree, ps), x, *args))
    if fw == 'haiku':
        import haiku as hk
        t = hk.transform(lambda x: layer(x, *args))
        params = t.init(jax.random.PRNGKey(seed), jnp.zeros((1, nin)))
        leaves, tree = jax.tree_util.tree_flatten(params)
        names = ['.'.join(str(getattr(k, 'key', k)) for k in path) for path, _ in jax.tree_util.tree_flatten_with_path(params)[0]]
        return Net(names, leaves, lambda ps, x: t.apply(jax.tree_util.tree_unflatten(tree, ps), jax.random.PRNGKey(0), x))
    if fw == 'torch':
        values = {n: p.detach().numpy().copy() for n, p in layer.named_parameters()}
        names = list(values)
        pt = module('torch')
        def apply(ps, x):
            install(layer, dict(zip(names, ps)))
            with shim(pt): return layer(TT(x), *args).v
        return Net(names, list(values.values()), apply)


def seeded(seed):
    import objax, torch, random
    np.random.seed(seed); random.seed(seed); torch.manual_seed(seed)
    objax.random.DEFAULT_GENERATOR.seed(seed) if hasattr(objax.random.DEFAULT_GENERATOR, 'seed') else None
