"""Runs the pytorch modules on jax tracers: TT is a stand-in for a torch tensor around a jax value."""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
import torch


def u(x): return x.v if isinstance(x, TT) else jnp.asarray(x.detach().numpy()) if type(x) in (torch.Tensor, torch.nn.Parameter) else x


class TT:
    __array_priority__ = 1000
    def __init__(self, v): self.v = jnp.asarray(v)
    @property
    def __class__(self): return torch.Tensor
    requires_grad = False
    is_leaf = True
    device = torch.device('cpu')
    dtype = torch.float32
    shape = property(lambda s: torch.Size(s.v.shape))
    ndim = property(lambda s: s.v.ndim)
    T = property(lambda s: TT(s.v.T))
    mT = property(lambda s: TT(jnp.swapaxes(s.v, -1, -2)))
    data = property(lambda s: s)
    def size(self, k=None): return self.shape if k is None else self.shape[k]
    def dim(self): return self.v.ndim
    def __len__(self): return len(self.v)
    def _self(self, *a, **k): return self
    cpu = detach = to = contiguous = clone = float = requires_grad_ = cuda = _self
    def numpy(self): return self.v
    def __jax_array__(self): return self.v
    def sigmoid(self): return TT(jax.nn.sigmoid(self.v))
    def tanh(self): return TT(jnp.tanh(self.v))
    def exp(self): return TT(jnp.exp(self.v))
    def __getitem__(self, i):
        f = lambda q: np.asarray(q) if type(q) is torch.Tensor else u(q)
        return TT(self.v[tuple(f(q) for q in i) if isinstance(i, tuple) else f(i)])
    def _b(f):
        return lambda s, o, *a, **k: TT(f(s.v, u(o), *a, **k))
    __add__ = add = _b(lambda a, b: a + b); __radd__ = _b(lambda a, b: b + a)
    __sub__ = sub = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a)
    __mul__ = mul = _b(lambda a, b: a * b); __rmul__ = _b(lambda a, b: b * a)
    __truediv__ = div = _b(lambda a, b: a / b); __rtruediv__ = _b(lambda a, b: b / a)
    __matmul__ = matmul = mm = mv = bmm = _b(lambda a, b: a @ b); __rmatmul__ = _b(lambda a, b: b @ a)
    def __pow__(self, k): return TT(self.v ** k)
    def __neg__(self): return TT(-self.v)
    def reshape(self, *s): return TT(self.v.reshape(*s))
    view = reshape
    def unsqueeze(self, k): return TT(jnp.expand_dims(self.v, k if k >= 0 else k + self.v.ndim + 1))
    def squeeze(self, k=None): return TT(jnp.squeeze(self.v, k))
    def sum(self, dim=None, **k): return TT(self.v.sum(dim))
    def mean(self, dim=None, **k): return TT(self.v.mean(dim))
    def transpose(self, a, b): return TT(jnp.swapaxes(self.v, a, b))
    def t(self): return TT(self.v.T)
    def permute(self, *a): return TT(self.v.transpose(*a))
    def flatten(self): return TT(self.v.reshape(-1))
    def expand(self, *s): return TT(jnp.broadcast_to(self.v, s))

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        k = dict(kwargs or {})
        n = func.__name__
        a = args
        if n == 'linear':
            x, w = u(a[0]), u(a[1] if len(a) > 1 else k['weight'])
            b = a[2] if len(a) > 2 else k.get('bias')
            return TT(x @ w.T + (0 if b is None else u(b)))
        if n in ('cat', 'concatenate', 'stack'):
            dim = k.get('dim', k.get('axis', a[1] if len(a) > 1 else 0))
            return TT((jnp.stack if n == 'stack' else jnp.concatenate)([u(q) for q in a[0]], dim))
        if n == 'einsum': return TT(jnp.einsum(a[0], *[u(q) for q in (a[1] if isinstance(a[1], (list, tuple)) else a[1:])]))
        if n in ('silu', 'hardswish'): return TT(jax.nn.silu(u(a[0])))
        if n in ('relu', 'softplus', 'gelu'): return TT(getattr(jax.nn, n)(u(a[0])))
        alias = {'multiply': 'mul', 'divide': 'div', 'true_divide': 'div', 'subtract': 'sub', 'swapaxes': 'transpose', 'index_select': None}
        n = alias.get(n, n)
        x = a[0] if isinstance(a[0], TT.cls) else TT(u(a[0]))
        if n and hasattr(TT.cls, n): return getattr(TT.cls, n)(x, *a[1:], **k)
        dunder = {'__rsub__': '__rsub__'}.get(n)
        raise NotImplementedError('torch function %s' % n)


TT.cls = TT


@contextlib.contextmanager
def gradients(needs):
    global NEEDS
    old, NEEDS = NEEDS, needs
    CALLS.clear()
    try: yield CALLS
    finally: NEEDS = old


@contextlib.contextmanager
def shim(mod):
    """conversions between jax values and torch tensors become wrapping and unwrapping of TT"""
    class NP:
        def __getattr__(self, k): return getattr(np, k)
        def array(self, x, *a, **k): return x if isinstance(x, jax.core.Tracer) else np.array(x, *a, **k)
        def asarray(self, x, *a, **k): return x if isinstance(x, jax.core.Tracer) else np.asarray(x, *a, **k)
    old, np0, at = torch.from_numpy, getattr(mod, 'np', None), torch.as_tensor
    torch.from_numpy = lambda x: TT(x) if isinstance(x, jax.core.Tracer) else old(x)
    torch.as_tensor = lambda x, *a, **k: TT(x) if isinstance(x, jax.core.Tracer) else at(x, *a, **k)
    if np0 is not None: mod.np = NP()
    try: yield
    finally:
        torch.from_numpy, torch.as_tensor = old, at
        if np0 is not None: mod.np = np0


def install(module, params):
    """replace the parameters of a torch module by TT values {dotted name: jax value}"""
    for name, v in params.items():
        m, _, leaf = name.rpartition('.')
        sub = module.get_submodule(m) if m else module
        if leaf in sub._parameters: del sub._parameters[leaf]
        object.__setattr__(sub, leaf, TT(v))


def shapes(module): return {n: tuple(p.shape) for n, p in module.named_parameters()}


class Context:
    """what autograd hands to forward/backward"""
    def __init__(self, needs): self.needs_input_grad, self.saved_tensors = tuple(needs), ()
    def save_for_backward(self, *a): self.saved_tensors = a
    def mark_non_differentiable(self, *a): pass
    def mark_dirty(self, *a): pass
    def set_materialize_grads(self, *a): pass


_apply = next(c.__dict__['apply'] for c in torch.autograd.Function.__mro__ if 'apply' in c.__dict__)


NEEDS, CALLS = None, []     # which arguments ask for gradients (None: no gradients), and the bridged calls made with gradients


def is_tt(a): return type(a) is TT.cls


def dispatching_apply(cls, *args):
    if any(is_tt(a) for a in jax.tree_util.tree_leaves(args)):
        needs = [is_tt(a) for a in args] if NEEDS == 'all' else list(NEEDS) if NEEDS else [False] * len(args)
        if getattr(cls, 'setup_context', None) is not torch.autograd.Function.setup_context and 'setup_context' in cls.__dict__:
            ctx = Context(needs)
            out = cls.forward(*args)
            cls.setup_context(ctx, args, out)
        else:
            ctx = Context(needs)
            out = cls.forward(ctx, *args)
        if any(needs): CALLS.append((cls, ctx, args, out))
        return out
    return _apply.__get__(None, cls)(*args)


torch.autograd.Function.apply = classmethod(dispatching_apply)
