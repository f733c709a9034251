"""Running numpy code on symbolic entries: random draws become variables, object arrays of polynomials flow through."""
import numpy as np
from contextlib import contextmanager
from . import poly
from .poly import Poly, as_poly

for _n in ('log1p', 'expm1', 'tan'):
    if not hasattr(Poly, _n): setattr(Poly, _n, (lambda n: lambda self: poly.fn(n, self))(_n))
Poly.square = lambda self: self * self
Poly.absolute = Poly.__abs__
Poly.reciprocal = lambda self: poly.recip(self)


@contextmanager
def draws(make, uniform=None):
    """np.random draws of standard normals return make(shape); norms of object arrays are encoded"""
    rand = np.random
    names = ['randn', 'normal', 'standard_normal', 'default_rng', 'RandomState']
    old = {n: getattr(rand, n) for n in names}
    onorm = np.linalg.norm

    class Gen:
        def __init__(self, *a): pass
        def standard_normal(self, size=None): return make(shape(size))
        def normal(self, loc=0.0, scale=1.0, size=None): return make(shape(size)) * scale + loc
        def randn(self, *s): return make(s)
    def shape(s): return () if s is None else (s,) if isinstance(s, (int, np.integer)) else tuple(s)
    def norm(x, ord=None, axis=None, keepdims=False):
        x = np.asarray(x)
        if x.dtype != object: return onorm(x, ord, axis, keepdims)
        if ord not in (None, 2): raise poly.Unsupported('norm of order %r' % ord)
        return np.sqrt((x ** 2).sum(axis=axis, keepdims=keepdims))
    rand.randn = lambda *s: make(s)
    rand.normal = Gen().normal
    rand.standard_normal = Gen().standard_normal
    rand.default_rng = rand.RandomState = Gen
    np.linalg.norm = norm
    try: yield
    finally:
        for n in names: setattr(rand, n, old[n])
        np.linalg.norm = onorm
