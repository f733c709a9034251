"""Symbolic interpreter for jaxprs (jax's compiler IR).

Concrete sub-computations are executed by the real jax primitives; everything that
depends on a symbolic input is computed on object arrays of Poly.
"""
import numpy as np
import scipy.sparse as sp
import jax
import jax.numpy as jnp
from jax import core
from . import poly
from .poly import Poly, as_poly, Unsupported, fn, ZERO, clean

STRUCT = {'reshape', 'transpose', 'squeeze', 'expand_dims', 'broadcast_in_dim', 'slice', 'rev', 'copy', 'copy_p',
          'dynamic_slice', 'gather', 'concatenate', 'pad', 'scatter', 'dynamic_update_slice', 'select_n', 'select_and_gather',
          'stop_gradient', 'split'}


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def to_obj(x):
    if is_sym(x): return x
    a = np.asarray(x)
    if a.dtype == object: return a
    if a.dtype == bool: a = a.astype(float)
    if np.issubdtype(a.dtype, np.complexfloating):
        out = np.empty(a.shape, dtype=object)
        f, g = out.reshape(-1), a.reshape(-1)
        for i in range(f.size):
            f[i] = float(g[i].real) if g[i].imag == 0 else as_poly(complex(g[i]))
        return f.reshape(a.shape)
    return a.astype(np.float64).astype(object)


def demote(x):
    """symbolic array whose entries all turned out constant and real stays symbolic (precision of real code unknown)"""
    return x


def obj(shape):
    return np.empty(shape, dtype=object)


def emap(f, *xs):
    xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
    out = obj(xs[0].shape)
    o = out.reshape(-1)
    for i, v in enumerate(zip(*[x.reshape(-1) for x in xs])):
        o[i] = f(*v)
    return o.reshape(xs[0].shape)


def _add(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a + b
    if not isinstance(a, Poly): a, b = b, a
    return a + b if isinstance(b, Poly) or b != 0 else a


def _mul(a, b):
    if isinstance(a, Poly): return a * b
    if isinstance(b, Poly): return b * a
    return a * b


def _div(a, b):
    if not isinstance(b, Poly) and b != 0 and not isinstance(a, Poly): return a / b
    return as_poly(a) * poly.recip(b)


def unary(name):
    return lambda ins, p: emap(lambda a: fn(name, a), ins[0])


def is_real_const(v):
    return not isinstance(v, Poly) or (v.is_const() and not isinstance(v.const(), complex))


def cval(v):
    return v.const() if isinstance(v, Poly) else v


def p_select(ins, p):
    """select_n with a concrete predicate is structural; with a symbolic one it becomes an ite atom"""
    pred, cases = ins[0], ins[1:]
    if len(cases) != 2: raise Unsupported('select_n with symbolic predicate and %d cases' % len(cases))
    f, t = [to_obj(c) for c in cases]
    def one(c, a, b):
        if is_real_const(c): return b if cval(c) else a
        if as_poly(a).key(9) == as_poly(b).key(9): return a
        if is_real_const(a) and is_real_const(b): return as_poly(a) + as_poly(c) * (as_poly(b) - as_poly(a))
        return fn('ite', c, b, a)
    return emap(one, np.broadcast_to(to_obj(pred), f.shape), f, t)


def merge(c, a, b):
    if not is_sym(a) and not is_sym(b): a, b = np.asarray(a), np.asarray(b)
    else: a, b = to_obj(a), to_obj(b)
    return np.where(c.reshape(c.shape + (1,) * (a.ndim - c.ndim)), a, b)


def infinite(v):
    return not isinstance(v, Poly) and v in (float('inf'), float('-inf'))


def minmax(name, a, b):
    if infinite(a): a, b = b, a
    if infinite(b): return a if (b < 0) == (name == 'max') else b          # values of the encoded program are finite reals
    return fn(name, *sorted((as_poly(a), as_poly(b)), key=lambda q: q.key()))


def p_minmax(name):
    return lambda ins, p: emap(lambda a, b: minmax(name, a, b), to_obj(ins[0]), to_obj(ins[1]))


def p_cmp(kind):
    def one(a, b):
        if infinite(a) or infinite(b):
            a, b = [v if infinite(v) else 0. for v in (a, b)]
            return float(dict(gt=a > b, lt=a < b, ge=a >= b, le=a <= b, eq=a == b, ne=a != b)[kind])
        d = as_poly(a) - b
        if kind == 'gt': return fn('gt', d, 0.)
        if kind == 'lt': return fn('gt', -d, 0.)
        if kind == 'ge': return 1 - fn('gt', -d, 0.)
        if kind == 'le': return 1 - fn('gt', d, 0.)
        if kind == 'eq': return fn('eq', d, 0.)
        return 1 - fn('eq', d, 0.)
    return lambda ins, p: emap(one, to_obj(ins[0]), to_obj(ins[1]))


def p_integer_pow(ins, p):
    return emap(lambda a: as_poly(a) ** p['y'], ins[0])


def p_pow(ins, p):
    if is_sym(ins[1]): raise Unsupported('symbolic exponent')
    return emap(lambda a, b: as_poly(a) ** float(b), to_obj(ins[0]), np.asarray(ins[1]).astype(float).astype(object))


def p_convert(ins, p):
    x = ins[0]
    dt = np.dtype(p['new_dtype'])
    if np.issubdtype(dt, np.integer):
        return emap(lambda a: a if is_real_const(a) and float(cval(a)).is_integer() or truth(a) else _no('integer conversion'), x)
    if dt == bool: return x
    if not np.issubdtype(dt, np.complexfloating):
        return emap(lambda a: a.real if isinstance(a, Poly) else a, x)
    return x


def truth(a):
    """an integer combination of truth values"""
    return all(float(c).is_integer() and all(poly.store().atom_def.get(v, ('',))[0] in ('gt', 'eq', 'argmax', 'argmin') for v in m) for m, c in as_poly(a).t.items())


def _no(what):
    raise Unsupported(what)


def p_reduce_sum(ins, p):
    x = ins[0]
    axes = tuple(p['axes'])
    keep = [i for i in range(x.ndim) if i not in axes]
    y = np.transpose(x, keep + list(axes)).reshape(tuple(x.shape[i] for i in keep) + (-1,))
    out = obj(y.shape[:-1])
    for idx in np.ndindex(*y.shape[:-1]):
        out[idx] = psum(y[idx])
    return out


def psum(vals):
    acc = {}
    for v in vals:
        if isinstance(v, Poly):
            for m, c in v.t.items(): acc[m] = acc.get(m, 0.0) + c
        elif v != 0: acc[()] = acc.get((), 0.0) + v
    return Poly(clean(acc))


def p_cumsum(ins, p):
    x = ins[0]
    ax = p['axis']
    if p.get('reverse'): x = np.flip(x, ax)
    y = np.moveaxis(x, ax, 0)
    out = obj(y.shape)
    acc = np.zeros(y.shape[1:], dtype=object)
    for i in range(y.shape[0]):
        acc = emap(_add, acc, y[i])
        out[i] = acc
    out = np.moveaxis(out, 0, ax)
    return np.flip(out, ax) if p.get('reverse') else out


def p_reduce_prod(ins, p):
    x = ins[0]
    axes = tuple(p['axes'])
    keep = [i for i in range(x.ndim) if i not in axes]
    y = np.transpose(x, keep + list(axes)).reshape(tuple(x.shape[i] for i in keep) + (-1,))
    out = obj(y.shape[:-1])
    for idx in np.ndindex(*y.shape[:-1]):
        r = 1.0
        for v in y[idx]: r = _mul(r, v)
        out[idx] = r
    return out


def p_reduce_mm(name):
    def g(ins, p):
        x = ins[0]
        axes = tuple(p['axes'])
        keep = [i for i in range(x.ndim) if i not in axes]
        y = np.transpose(x, keep + list(axes)).reshape(tuple(x.shape[i] for i in keep) + (-1,))
        out = obj(y.shape[:-1])
        for idx in np.ndindex(*y.shape[:-1]):
            r = y[idx][0]
            for v in y[idx][1:]: r = minmax(name, r, v)
            out[idx] = r
        return out
    return g


def p_arg(name):
    def g(ins, p):
        x = ins[0]
        axes = tuple(p['axes'])
        keep = [i for i in range(x.ndim) if i not in axes]
        y = np.transpose(x, keep + list(axes)).reshape(tuple(x.shape[i] for i in keep) + (-1,))
        out = obj(y.shape[:-1])
        for idx in np.ndindex(*y.shape[:-1]): out[idx] = fn(name, *y[idx])
        return out
    return g


def p_boolred(kind):
    def g(ins, p):
        prod = p_reduce_prod
        if kind == 'and': return prod(ins, p)
        return emap(lambda a: 1 - as_poly(a), prod([emap(lambda a: 1 - as_poly(a), ins[0])], p))
    return g


def p_dot_general(ins, p):
    (lc, rc), (lb, rb) = p['dimension_numbers']
    A, B = ins
    A = A if is_sym(A) else np.asarray(A)
    B = B if is_sym(B) else np.asarray(B)
    lf = [i for i in range(A.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(B.ndim) if i not in rc and i not in rb]
    bs = tuple(A.shape[i] for i in lb)
    ms = tuple(A.shape[i] for i in lf)
    ns = tuple(B.shape[i] for i in rf)
    k = int(np.prod([A.shape[i] for i in lc], dtype=int))
    nb = int(np.prod(bs, dtype=int)); m = int(np.prod(ms, dtype=int)); n = int(np.prod(ns, dtype=int))
    A2 = np.transpose(A, list(lb) + lf + list(lc)).reshape(nb, m, k)
    B2 = np.transpose(B, list(rb) + list(rc) + rf).reshape(nb, k, n)
    out = obj((nb, m, n))
    for b in range(nb): out[b] = matmul(A2[b], B2[b])
    return out.reshape(bs + ms + ns)


def matmul(A, B):
    if is_sym(A) and is_sym(B): return matmul_ss(A, B)
    if is_sym(B): return matmul_cs(np.asarray(A), B)
    return matmul_cs(np.asarray(B).T, A.T).T


def matmul_ss(A, B):
    m, k = A.shape
    n = B.shape[1]
    out = obj((m, n))
    Ar = [[(j, as_poly(A[i, j]).t) for j in range(k) if not zero(A[i, j])] for i in range(m)]
    Bt = [[as_poly(B[j, l]).t for j in range(k)] for l in range(n)]
    for i in range(m):
        for l in range(n):
            acc = {}
            for j, ta in Ar[i]:
                tb = Bt[l][j]
                if tb: poly.mul_into(acc, ta, tb)
            out[i, l] = Poly(clean(acc))
    return out


def zero(v):
    return (not v.t) if isinstance(v, Poly) else v == 0


def matmul_cs(C, X):
    """constant (m,k) @ symbolic (k,n)"""
    if np.iscomplexobj(C):
        R = matmul_cs(C.real, X)
        if not np.any(C.imag): return R
        J = matmul_cs(C.imag, X)
        i = Poly({(0,): 1.0})
        return emap(lambda a, b: _add(a, _mul(i, b)), R, J)
    m, k = C.shape
    n = X.shape[1]
    out = obj((m, n))
    if m == 0 or n == 0: return out
    Cs = sp.csr_matrix(C.astype(np.float64))
    for l in range(n):
        ids, rows, cols, vals, monos = {}, [], [], [], []
        for j in range(k):
            v = X[j, l]
            t = v.t if isinstance(v, Poly) else ({(): float(v)} if v != 0 else {})
            for mo, c in t.items():
                q = ids.get(mo)
                if q is None:
                    q = ids[mo] = len(monos); monos.append(mo)
                rows.append(j); cols.append(q); vals.append(c)
        if not monos:
            for i in range(m): out[i, l] = ZERO
            continue
        M = (Cs @ sp.csr_matrix((vals, (rows, cols)), shape=(k, len(monos)))).tocsr()
        for i in range(m):
            a, b = M.indptr[i], M.indptr[i + 1]
            out[i, l] = Poly({monos[q]: float(c) for q, c in zip(M.indices[a:b], M.data[a:b]) if abs(c) > poly.DROP})
    return out


def p_scatter_add(ins, p, eqn):
    operand, idx, upd = ins
    if is_sym(idx): raise Unsupported('symbolic index')
    ush = upd.shape
    nu = int(np.prod(ush, dtype=int))
    pos = np.arange(1, nu + 1).reshape(ush)
    # which operand location each update lands in: scatter one-hot rows
    out = to_obj(operand).copy().reshape(-1)
    u = to_obj(upd).reshape(-1)
    par = dict(p)
    for q in range(nu):
        hot = np.zeros(nu, np.float32); hot[q] = 1
        r = np.asarray(eqn.primitive.bind(jnp.zeros(operand.shape, jnp.float32), jnp.asarray(idx), jnp.asarray(hot.reshape(ush)), **par))
        for loc in np.flatnonzero(r.reshape(-1)): out[loc] = _add(out[loc], u[q])
    return out.reshape(operand.shape)


def p_triangular_solve(ins, p):
    a, b = ins
    if is_sym(a): raise Unsupported('triangular_solve of a symbolic matrix')
    a = np.asarray(a).astype(np.float64)
    if a.ndim != 2: raise Unsupported('batched triangular_solve')
    t = np.tril(a) if p['lower'] else np.triu(a)
    if p['unit_diagonal']: t = t - np.diag(np.diag(t)) + np.eye(len(t))
    if p['transpose_a']: t = t.T
    if p.get('conjugate_a'): t = t.conj()
    ti = np.linalg.inv(t)
    return matmul(ti, b) if p['left_side'] else matmul(b, ti)


def p_complex(ins, p):
    i = Poly({(0,): 1.0})
    return emap(lambda a, b: _add(a, _mul(i, b)), to_obj(ins[0]), to_obj(ins[1]))


PRIMS = {
    'add': lambda i, p: emap(_add, to_obj(i[0]), to_obj(i[1])), 'add_any': lambda i, p: emap(_add, to_obj(i[0]), to_obj(i[1])),
    'sub': lambda i, p: emap(lambda a, b: _add(a, -b), to_obj(i[0]), to_obj(i[1])),
    'mul': lambda i, p: emap(_mul, to_obj(i[0]), to_obj(i[1])), 'neg': lambda i, p: emap(lambda a: -a, i[0]),
    'div': lambda i, p: emap(_div, to_obj(i[0]), to_obj(i[1])),
    'integer_pow': p_integer_pow, 'pow': p_pow, 'dot_general': p_dot_general, 'reduce_sum': p_reduce_sum, 'cumsum': p_cumsum,
    'reduce_prod': p_reduce_prod, 'reduce_max': p_reduce_mm('max'), 'reduce_min': p_reduce_mm('min'),
    'argmax': p_arg('argmax'), 'argmin': p_arg('argmin'),
    'reduce_and': p_boolred('and'), 'reduce_or': p_boolred('or'),
    'and': lambda i, p: emap(_mul, to_obj(i[0]), to_obj(i[1])), 'not': lambda i, p: emap(lambda a: 1 - as_poly(a), i[0]),
    'or': lambda i, p: emap(lambda a, b: 1 - (1 - as_poly(a)) * (1 - as_poly(b)), to_obj(i[0]), to_obj(i[1])),
    'clamp': lambda i, p: _clamp(i, p), 'max': p_minmax('max'), 'min': p_minmax('min'), 'convert_element_type': p_convert, 'reduce_precision': lambda i, p: i[0],
    'conj': lambda i, p: emap(lambda a: a.conjugate(), i[0]), 'real': lambda i, p: emap(lambda a: as_poly(a).real, i[0]),
    'imag': lambda i, p: emap(lambda a: as_poly(a).imag, i[0]), 'complex': p_complex,
    'triangular_solve': p_triangular_solve, 'square': lambda i, p: emap(lambda a: as_poly(a) * a, i[0]),
    'rsqrt': lambda i, p: emap(lambda a: poly.recip(fn('sqrt', a)), i[0]),
    'atan2': lambda i, p: emap(lambda a, b: fn('atan2', a, b), to_obj(i[0]), to_obj(i[1])),
    'is_finite': lambda i, p: emap(lambda a: 1.0, i[0]), 'device_put': lambda i, p: i[0], 'sharding_constraint': lambda i, p: i[0],
}
for n in 'gt lt ge le eq ne'.split(): PRIMS[n] = p_cmp(n)
for n in 'sqrt exp log log1p expm1 sin cos tan tanh logistic abs sign floor erf asin acos atan'.split(): PRIMS[n] = unary(n)


def _clamp(i, p):
    lo, x, hi = i[0], to_obj(i[1]), i[2]
    infinite = lambda a: np.asarray(a).dtype.kind == 'f' and np.isinf(np.asarray(a)).all()
    if not infinite(lo): x = PRIMS['max']([np.broadcast_to(to_obj(lo), x.shape), x], p)
    return x if infinite(hi) else PRIMS['min']([x, np.broadcast_to(to_obj(hi), x.shape)], p)


def _bcast(x, p):
    shape, dims = p['shape'], p['broadcast_dimensions']
    new = [1] * len(shape)
    for q, d in enumerate(dims): new[d] = x.shape[q]
    return np.broadcast_to(x.reshape(new), shape)


def _slice(x, p):
    st = p['strides'] or (1,) * x.ndim
    return x[tuple(slice(a, b, c) for a, b, c in zip(p['start_indices'], p['limit_indices'], st))]


def _rev(x, p):
    return x[tuple(slice(None, None, -1) if d in p['dimensions'] else slice(None) for d in range(x.ndim))]


# numpy meaning of structural primitives (on arrays of positions or on constants)
NPS = {
    'reshape': lambda i, p: None if p.get('dimensions') else i[0].reshape(p['new_sizes']),
    'transpose': lambda i, p: np.transpose(i[0], p['permutation']), 'squeeze': lambda i, p: np.squeeze(i[0], tuple(p['dimensions'])),
    'expand_dims': lambda i, p: np.expand_dims(i[0], tuple(p['dimensions'])), 'broadcast_in_dim': lambda i, p: _bcast(i[0], p) if len(i) == 1 else None,
    'slice': lambda i, p: _slice(i[0], p), 'rev': lambda i, p: _rev(i[0], p), 'concatenate': lambda i, p: np.concatenate(i, p['dimension']),
    'copy': lambda i, p: i[0], 'copy_p': lambda i, p: i[0], 'stop_gradient': lambda i, p: i[0],
}


def _iota(i, p, e):
    if i: return None
    n = p['shape'][p['dimension']]
    sh = [1] * len(p['shape']); sh[p['dimension']] = n
    return np.broadcast_to(np.arange(n, dtype=p['dtype']).reshape(sh), p['shape'])


def _bin(f):
    def g(i, p, e):
        a, b = i
        if a.dtype != b.dtype: return None
        r = f(a, b)
        return r.astype(e.outvars[0].aval.dtype)
    return g


def _dotc(i, p, e):
    (lc, rc), (lb, rb) = p['dimension_numbers']
    a, b = i
    if lb or rb or not np.issubdtype(a.dtype, np.floating): return None
    return np.tensordot(a, b, (lc, rc)).astype(e.outvars[0].aval.dtype)


NPC = {k: (lambda f: lambda i, p, e: f(i, p))(f) for k, f in NPS.items()}
NPC.update({
    'iota': _iota, 'convert_element_type': lambda i, p, e: None if np.issubdtype(i[0].dtype, np.floating) and not np.issubdtype(p['new_dtype'], np.floating) else i[0].astype(p['new_dtype']),
    'add': _bin(lambda a, b: a + b), 'sub': _bin(lambda a, b: a - b), 'mul': _bin(lambda a, b: a * b), 'neg': lambda i, p, e: -i[0],
    'eq': _bin(lambda a, b: a == b), 'ne': _bin(lambda a, b: a != b), 'lt': _bin(lambda a, b: a < b), 'gt': _bin(lambda a, b: a > b),
    'le': _bin(lambda a, b: a <= b), 'ge': _bin(lambda a, b: a >= b), 'dot_general': _dotc,
    'select_n': lambda i, p, e: np.where(i[0].astype(bool), i[2], i[1]).astype(i[1].dtype) if len(i) == 3 else None,
})


class Interp:
    def __init__(self, store, stubs=None):
        self.S = store
        self.stubs = stubs or {}
        self.prims = {}       # primitive -> number of symbolic applications
        self.called = set()   # names of the jitted functions inlined

    # ---------------------------------------------------------------- contracts
    def inv(self, M):
        M = to_obj(M)
        if M.ndim > 2:
            out = obj(M.shape)
            for idx in np.ndindex(*M.shape[:-2]): out[idx] = self.inv(M[idx])
            return out
        if all(is_real_const(v) or as_poly(v).is_const() for v in M.reshape(-1)):
            c = np.array([as_poly(v).const() for v in M.reshape(-1)]).reshape(M.shape)
            return to_obj(np.linalg.inv(c))
        return inverse_of(self.S, M)

    # ---------------------------------------------------------------- interpreter
    def run(self, jaxpr, consts, *args):
        env = {}
        def read(v):
            return v.val if isinstance(v, core.Literal) else env[v]
        for v, c in zip(jaxpr.constvars, consts): env[v] = c
        for v, a in zip(jaxpr.invars, args): env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if tuple(np.shape(o)) != tuple(v.aval.shape):
                    raise Unsupported('shape of %s: %s, expected %s' % (eqn.primitive.name, np.shape(o), v.aval.shape))
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def closed(self, cj, *args):
        return self.run(cj.jaxpr, cj.consts, *args)

    def eqn(self, eqn, ins):
        name, p = eqn.primitive.name, eqn.params
        sym = any(is_sym(x) for x in ins)
        if name == 'pjit':
            fname = p.get('name')
            if fname in self.stubs and len(eqn.outvars) == 1:
                r = self.stubs[fname](self, eqn, ins)
                if r is not NotImplemented: return [r]
            if not sym:
                return self.concrete(eqn, ins)
            self.called.add(fname)
            if fname in ('inv', '_inv') and len(ins) == 1:
                return [self.inv(ins[0])]
            if fname in ('solve', '_solve') and len(ins) == 2 and is_sym(ins[0]):
                b = to_obj(ins[1])
                return [matmul(self.inv(ins[0]), b.reshape(b.shape[0], -1)).reshape(b.shape)]
            return self.closed(p['jaxpr'], *ins)
        if not sym:
            return self.concrete(eqn, ins)
        self.prims[name] = self.prims.get(name, 0) + 1
        if name in ('closed_call', 'core_call', 'remat', 'checkpoint', 'xla_call', 'remat2', 'core_closed_call'):
            j = p.get('call_jaxpr') or p.get('jaxpr')
            return self.closed(j, *ins) if hasattr(j, 'consts') else self.run(j, [], *ins)
        if name == 'custom_jvp_call': return self.closed(p['call_jaxpr'], *ins)
        if name in ('custom_vjp_call_jaxpr', 'custom_vjp_call'): return self.closed(p.get('fun_jaxpr') or p['call_jaxpr'], *ins)
        if name == 'custom_linear_solve':
            cl, j = p['const_lengths'], p['jaxprs']
            n = cl.matvec + cl.vecmat
            sc = ins[n:n + cl.solve]
            b = ins[cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve:]
            return self.closed(j.solve, *sc, *b)
        if name == 'cond':
            if is_sym(ins[0]): raise Unsupported('cond on a symbolic value')
            return self.closed(p['branches'][int(np.clip(int(ins[0]), 0, len(p['branches']) - 1))], *ins[1:])
        if name == 'while':
            nc, nb = p['cond_nconsts'], p['body_nconsts']
            cc, bc, car = ins[:nc], ins[nc:nc + nb], list(ins[nc + nb:])
            for _ in range(10000):
                c = self.closed(p['cond_jaxpr'], *cc, *car)[0]
                if is_sym(c): raise Unsupported('while on a symbolic value')
                c = np.asarray(c)
                if not c.any(): return car
                new = self.closed(p['body_jaxpr'], *bc, *car)
                car = new if c.all() else [merge(c, a, b) for a, b in zip(new, car)]     # rows that are finished keep their value
            raise Unsupported('loop bound')
        if name == 'scan':
            nc, ncar, L = p['num_consts'], p['num_carry'], p['length']
            cs, car, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
            ys = []
            order = range(L - 1, -1, -1) if p['reverse'] else range(L)
            for t in order:
                r = self.closed(p['jaxpr'], *cs, *car, *[x[t] if is_sym(x) else jnp.asarray(x)[t] for x in xs])
                car = list(r[:ncar]); ys.append(r[ncar:])
            if p['reverse']: ys = ys[::-1]
            stacked = []
            for i, ov in enumerate(eqn.outvars[ncar:]):
                col = [y[i] for y in ys]
                if any(is_sym(c) for c in col):
                    o = obj(ov.aval.shape)
                    for t, c in enumerate(col): o[t] = to_obj(c)
                    stacked.append(o)
                else: stacked.append(jnp.stack(col) if col else jnp.zeros(ov.aval.shape, ov.aval.dtype))
            return car + stacked
        if name == 'select_n' and is_sym(ins[0]): return [p_select(ins, p)]
        if name in STRUCT: return self.structural(eqn, ins)
        if name in ('scatter-add', 'scatter_add'): return [p_scatter_add(ins, p, eqn)]
        if name == 'sort' or name == 'argsort': raise Unsupported('sorting symbolic values')
        if name in PRIMS: return [PRIMS[name](ins, p)]
        raise Unsupported('primitive ' + name)

    def concrete(self, eqn, ins):
        name = eqn.primitive.name
        if name in NPC:
            r = NPC[name]([np.asarray(x) for x in ins], eqn.params, eqn)
            if r is not None: return [r]
        sub, par = eqn.primitive.get_bind_params(eqn.params)
        out = eqn.primitive.bind(*sub, *[jnp.asarray(x) if isinstance(x, np.ndarray) and not isinstance(x, jnp.ndarray) else x for x in ins], **par)
        return out if eqn.primitive.multiple_results else [out]

    def structural(self, eqn, ins):
        """run the primitive itself on an array of positions and permute the symbolic entries accordingly"""
        name, p = eqn.primitive.name, eqn.params
        data = {'gather': [0], 'dynamic_slice': [0], 'scatter': [0, 2], 'dynamic_update_slice': [0, 1], 'pad': [0, 1],
                'select_n': list(range(1, len(ins))), 'concatenate': list(range(len(ins)))}.get(name, [0])
        flat, pos, n = [], [], 1
        for q, x in enumerate(ins):
            if q in data:
                o = to_obj(x)
                pos.append(np.arange(n, n + o.size, dtype=np.int32).reshape(o.shape))
                flat.append(o.reshape(-1)); n += o.size
            else:
                if is_sym(x): raise Unsupported('symbolic index in ' + name)
                pos.append(x)
        flat = np.concatenate(flat) if len(flat) > 1 else flat[0]
        if name in NPS:
            r = NPS[name]([np.asarray(x) for x in pos], p)
            if r is not None: return [flat[r.reshape(-1) - 1].reshape(r.shape)]
        pos = [jnp.asarray(x) for x in pos]
        par = dict(p)
        if name == 'gather': par['fill_value'] = 0
        outs = eqn.primitive.bind(*pos, **par)
        res = []
        for o in (outs if eqn.primitive.multiple_results else [outs]):
            o = np.asarray(o)
            if o.size and (o.min() < 1 or o.max() > flat.size): raise Unsupported('out of bounds ' + name)
            res.append(flat[o.reshape(-1) - 1].reshape(o.shape))
        return res


# ---- inverse contract -----------------------------------------------------------
def mkey(M):
    return tuple(as_poly(v).key(9) for v in np.asarray(M, dtype=object).reshape(-1)) + (M.shape,)


def register_inverse(S, M, X):
    for a, b in ((M, X), (M.T, X.T)):
        S.inverse[mkey(a)] = b
        S.inverse[mkey(b)] = a
    conj = lambda Z: emap(lambda v: as_poly(v).conjugate(), Z)
    for a, b in ((conj(M), conj(X)), (conj(M).T, conj(X).T)):
        S.inverse[mkey(a)] = b
        S.inverse[mkey(b)] = a


def inverse_of(S, M):
    """inv(M): the matrix X with M X = X M = I (contract of the linear algebra library).

    A registered matrix (or its transpose / conjugate) returns its partner; block diagonal and
    kronecker structured matrices are inverted by parts; otherwise a fresh matrix is introduced."""
    k = mkey(M)
    if k in S.inverse: return S.inverse[k]
    n = M.shape[0]
    # scalar multiple of a registered matrix
    # connected components (block structure under simultaneous row/col permutation)
    nz = np.array([[not zero(M[i, j]) for j in range(n)] for i in range(n)])
    comp = components(nz)
    if len(comp) > 1:
        X = obj((n, n)); X[...] = ZERO
        for c in comp:
            blk = M[np.ix_(c, c)]
            if len(c) == 1: b = obj((1, 1)); b[0, 0] = poly.recip(blk[0, 0])
            else: b = inverse_of(S, blk)
            X[np.ix_(c, c)] = b
        return X
    for d in range(2, n):
        if n % d == 0:
            f = kron_factor(S, M, d)
            if f is not None:
                A, B = f
                return np.kron(inverse_of(S, A), inverse_of(S, B))
    pm = perm_of_registered(S, M)
    if pm is not None: return pm
    pr = product_of_registered(S, M)
    if pr is not None: return pr
    X = S.array('inv%d' % len(S.inverse), (n, n))
    S.inverse_pairs.append((M, X))
    register_inverse(S, M, X)
    return X


def components(nz):
    n = len(nz)
    adj = nz | nz.T
    seen, out = set(), []
    for s in range(n):
        if s in seen: continue
        st, c = [s], []
        seen.add(s)
        while st:
            u = st.pop(); c.append(u)
            for v in np.flatnonzero(adj[u]):
                if v not in seen: seen.add(v); st.append(v)
        out.append(sorted(c))
    return out


def kron_factor(S, M, d):
    """M == kron(A, B) with B one of the registered d x d matrices?"""
    n = M.shape[0]
    e = n // d
    for key, X in list(S.inverse.items()):
        if X.shape != (d, d): continue
        B = S.inverse.get(mkey(X))
        if B is None: continue
        b00 = as_poly(B[0, 0])
        if len(b00.t) != 1: continue
        A = obj((e, e)); ok = True
        for i in range(e):
            for j in range(e):
                q = mono_div(as_poly(M[i * d, j * d]), b00)
                if q is None: ok = False; break
                A[i, j] = q
            if not ok: break
        if ok and mkey(np.kron(A, B)) == mkey(M): return A, B
    return None


def mono_div(p, q):
    (mq, cq), = q.t.items()
    out = {}
    for m, c in p.t.items():
        r = list(m)
        for v in mq:
            if v not in r: return None
            r.remove(v)
        out[tuple(r)] = c / cq
    return Poly(out)


def perm_of_registered(S, M):
    """M == s * P R Q for a registered R and permutations P, Q of rows / columns"""
    n = M.shape[0]
    cells = {}
    for i in range(n):
        for j in range(n):
            cells.setdefault(as_poly(M[i, j]).key(9), []).append((i, j))
    for key, X in list(S.inverse.items()):
        if X.shape != (n, n): continue
        R = S.inverse.get(mkey(X))
        if R is None: continue
        first = as_poly(M[0, 0])
        if len(first.t) != 1: continue
        (m0, c0), = first.t.items()
        loc = [(i, j, as_poly(R[i, j])) for i in range(n) for j in range(n)]
        hit = [(i, j, r) for i, j, r in loc if len(r.t) == 1 and m0 in r.t]
        if not hit: continue
        s = c0 / hit[0][2].t[m0]
        rk = {as_poly(R[i, j] * s).key(9): (i, j) for i in range(n) for j in range(n)}
        rows, cols = {}, {}
        ok = True
        for i in range(n):
            for j in range(n):
                h = rk.get(as_poly(M[i, j]).key(9))
                if h is None or rows.setdefault(i, h[0]) != h[0] or cols.setdefault(j, h[1]) != h[1]: ok = False; break
            if not ok: break
        if ok and len(set(rows.values())) == n and len(set(cols.values())) == n:
            out = obj((n, n))
            for i in range(n):
                for j in range(n): out[j, i] = _mul(X[cols[j], rows[i]], 1 / s)
            return out
    return None


def product_of_registered(S, M):
    n = M.shape[0]
    base = []
    seen = set()
    for key, X in list(S.inverse.items()):
        if X.shape == (n, n) and key not in seen:
            seen.add(key)
            R = S.inverse.get(mkey(X))
            if R is not None: base.append((R, X))
    if len(base) > 40: return None
    k = mkey(M)
    for R1, X1 in base:
        for R2, X2 in base:
            if mkey(matmul_ss(R1, R2)) == k: return matmul_ss(X2, X1)
    return None
