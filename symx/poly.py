"""Sparse multivariate polynomials over named real variables, with uninterpreted atoms.

A value of the symbolic execution is a python float or a Poly: {monomial: float}.
A monomial is a sorted tuple of variable ids (repeated for powers).  Variable id 0
is the imaginary unit and obeys  id0*id0 = -1.  An atom is a variable standing for
fn(argument polynomials); equal applications share one variable (congruence).
"""
import math
from fractions import Fraction
import numpy as np

DROP = 1e-13          # coefficients below are dropped (accounted for in every tolerance)


class Unsupported(Exception):
    pass


class Store:
    """Variables of one symbolic execution."""
    def __init__(self):
        self.names = ['i']
        self.atom_def = {}      # var id -> (fn, args)
        self.atom_key = {}      # (fn, keys) -> var id
        self.square = {}        # var id -> Poly that var*var rewrites to
        self.inverse = {}       # matrix key -> object array of the inverse
        self.inverse_pairs = [] # (M, X) pairs introduced by the contract M X = I
        self.expm = []          # (A, E) pairs introduced by the contract of expm
        self.exps = {}          # var id of an atom exp(u) -> u
        self.halves = {}        # (exp or logistic, key of the argument without its constant) -> [(var id, constant)]
        self.pairs = {}         # (var id, var id) -> Poly that their product rewrites to

    merge = 0.0             # atoms of one function whose arguments differ by less than this on the unit box are identified

    def nearest(self, fn, args):
        for vid, (f, other) in self.atom_def.items():
            if f == fn and len(other) == len(args) and all(sum(abs(c) for c in (a - b).t.values()) <= self.merge for a, b in zip(args, other)): return vid

    def pair(self, fn, vid, w):
        """exp(w) logistic(w+c) = exp(w) - logistic(w+c) exp(-c) and exp(-w) logistic(w+c) = (1 - logistic(w+c)) exp(c)"""
        c = w.t.get((), 0.)
        if fn == 'exp' and c or abs(c) > 30: return
        u = w - c
        self.halves.setdefault((fn, u.key()), []).append((vid, c))
        for sign in (1, -1):
            for other, d in self.halves.get(('logistic' if fn == 'exp' else 'exp', (u * sign).key()), ()):
                e, l, c = (vid, other, d) if fn == 'exp' else (other, vid, c)
                self.pairs[min(e, l), max(e, l)] = Poly({(e,): 1.0, (l,): -math.exp(-c)}) if sign == 1 else Poly({(): math.exp(c), (l,): -math.exp(c)})

    def var(self, name):
        self.names.append(name)
        return Poly({(len(self.names) - 1,): 1.0})

    def array(self, name, shape):
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.var(name + ''.join('_%d' % i for i in idx))
        return out

    def atom(self, fn, *args):
        args = tuple(as_poly(a) for a in args)
        key = (fn,) + tuple(a.key() for a in args)
        if key not in self.atom_key and self.merge:
            near = self.nearest(fn, args)
            if near is not None: self.atom_key[key] = near
        if key not in self.atom_key:
            self.names.append('%s#%d' % (fn, len(self.names)))
            vid = len(self.names) - 1
            self.atom_key[key] = vid
            self.atom_def[vid] = (fn, args)
            if fn == 'sqrt':
                self.square[vid] = args[0]
            if fn == 'abs': self.square[vid] = args[0] * args[0].conjugate()
            if fn in ('gt', 'eq'): self.square[vid] = Poly({(vid,): 1.0})
            if fn == 'exp': self.exps[vid] = args[0]
            if fn in ('exp', 'logistic'): self.pair(fn, vid, args[0])
        return Poly({(self.atom_key[key],): 1.0})


S = Store()


def reset():
    global S
    S = Store()
    return S


def store():
    return S


class Poly(object):
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # ---- structure
    def key(self, digits=5):
        """Canonical key, coefficients rounded: atoms whose arguments agree to 1e-5 are identified."""
        return tuple(sorted((m, round(c, digits) + 0.0) for m, c in self.t.items() if abs(round(c, digits)) > 0))

    def is_const(self):
        return all(m == () or m == (0,) for m in self.t)

    def const(self):
        if any(m == (0,) for m in self.t):
            return complex(self.t.get((), 0.0), self.t[(0,)])
        return self.t.get((), 0.0)

    def vars(self):
        return {v for m in self.t for v in m}

    def __repr__(self):
        if not self.t: return '0'
        return ' + '.join('%g%s' % (c, ''.join('*' + S.names[v] for v in m)) for m, c in sorted(self.t.items())[:8]) + \
            (' + ...(%d terms)' % len(self.t) if len(self.t) > 8 else '')

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        o = as_poly(o)
        a, b = self.t, o.t
        if len(a) < len(b): a, b = b, a
        t = dict(a)
        for m, c in b.items():
            v = t.get(m, 0.0) + c
            if v == 0.0 or (-DROP < v < DROP): t.pop(m, None)
            else: t[m] = v
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, (int, float, np.floating, np.integer)):
            o = float(o)
            if o == 0.0: return ZERO
            if o == 1.0: return self
            return Poly({m: c * o for m, c in self.t.items()})
        o = as_poly(o)
        acc = {}
        mul_into(acc, self.t, o.t)
        return Poly(clean(acc))
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n).is_integer(): n = int(n)
        if isinstance(n, (int, np.integer)):
            if n < 0: return recip(self) ** (-int(n))
            out = ONE
            for _ in range(int(n)): out = out * self
            return out
        if float(n) == .5: return self.sqrt()
        if isinstance(n, (float, np.floating)) and (2 * float(n)).is_integer():
            return self.sqrt() ** int(2 * n)
        raise Unsupported('power %r' % n)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        return self * recip(o)

    def __rtruediv__(self, o):
        return as_poly(o) * recip(self)

    def conjugate(self):
        return Poly({m: (-c if m and m[0] == 0 else c) for m, c in self.t.items()})

    @property
    def real(self):
        return Poly({m: c for m, c in self.t.items() if not (m and m[0] == 0)})

    @property
    def imag(self):
        return Poly({m[1:]: c for m, c in self.t.items() if m and m[0] == 0})

    # numpy object-array ufuncs call these
    def sqrt(self): return fn('sqrt', self)
    def exp(self): return fn('exp', self)
    def log(self): return fn('log', self)
    def sin(self): return fn('sin', self)
    def cos(self): return fn('cos', self)
    def tanh(self): return fn('tanh', self)
    def arctan2(self, o): return S.atom('atan2', self, o)
    def __abs__(self): return fn('abs', self)


def as_poly(x):
    if isinstance(x, Poly): return x
    if isinstance(x, (complex, np.complexfloating)):
        t = {}
        if x.real != 0: t[()] = float(x.real)
        if x.imag != 0: t[(0,)] = float(x.imag)
        return Poly(t)
    if isinstance(x, (int, float, np.floating, np.integer, bool, np.bool_, Fraction)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf): raise Unsupported('non finite constant')
        return Poly({(): x}) if x != 0 else Poly({})
    raise Unsupported('not a scalar: %r' % type(x))


ZERO = Poly({})
ONE = Poly({(): 1.0})


def mul_mono(m1, m2):
    """-> (sign, mono, rewritten squares)"""
    if not m1: return 1, m2
    if not m2: return 1, m1
    m = tuple(sorted(m1 + m2))
    if len(m) > 1 and m[1] == 0: return -1, m[2:]
    return 1, m


def rewrite(m):
    """the monomial m (with exponentials or registered pairs) -> equal Poly, or None"""
    es = [v for v in m if v in S.exps]
    if len(es) > 1:
        u = ZERO
        for v in es: u = u + S.exps[v]
        rest = tuple(v for v in m if v not in S.exps)
        return Poly({rest: 1.0}) * fn('exp', u)
    if es and S.pairs:
        for v in m:
            k = (min(v, es[0]), max(v, es[0]))
            if k in S.pairs:
                r = list(m); r.remove(v); r.remove(es[0])
                return Poly({tuple(r): 1.0}) * S.pairs[k]


def mul_into(acc, a, b):
    sq = S.square
    exps = S.exps
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            s, m = mul_mono(m1, m2)
            c = s * c1 * c2
            if sq:
                hit = next((v for v, w in zip(m, m[1:]) if v == w and v in sq), None)
                if hit is not None:
                    r = list(m); r.remove(hit); r.remove(hit)
                    sub = {}
                    mul_into(sub, {tuple(r): c}, sq[hit].t)
                    for mm, cc in sub.items(): acc[mm] = acc.get(mm, 0.0) + cc
                    continue
            if exps and len(m) > 1 and any(v in exps for v in m):
                sub = rewrite(m)
                if sub is not None:
                    for mm, cc in sub.t.items(): acc[mm] = acc.get(mm, 0.0) + c * cc
                    continue
            acc[m] = acc.get(m, 0.0) + c


def clean(acc):
    return {m: c for m, c in acc.items() if c > DROP or c < -DROP}


def recip(x):
    x = as_poly(x)
    if x.is_const():
        return as_poly(1 / x.const())
    if len(x.t) == 1:           # c * monomial: reciprocal of each factor
        (m, c), = x.t.items()
        if len(m) > 1 and 0 not in m:
            out = as_poly(1 / c)
            for v in m: out = out * recip(Poly({(v,): 1.0}))
            return out
        if m and m[0] in S.atom_def and S.atom_def[m[0]][0] == 'recip':
            return S.atom_def[m[0]][1][0] * (1 / c)
        if len(m) == 1 and m[0] in S.atom_def and S.atom_def[m[0]][0] == 'sqrt' and c != 1.0:
            return S.atom('recip', Poly({m: 1.0})) * (1 / c)
    if S.exps:
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0] in S.exps: return fn('exp', -S.exps[m[0]]) * (1 / c)
        two = sum_of_exps(x)
        if two and len(two) == 2 and two[0][0] * two[1][0] > 0:        # 1/(a exp(u) + b exp(w)) = exp(-u) logistic(u - w + log(a/b)) / a
            (a, u), (b, w) = two
            return fn('exp', -u) * fn('logistic', u - w + math.log(a / b)) * (1 / a)
        if two and len(two) > 2:
            u, x = shifted(x, two)
            return fn('exp', -u) * recip_atom(x)
    return recip_atom(x)


def recip_atom(x):
    c = content(x)
    if c != 1.0: return S.atom('recip', x * (1 / c)) * (1 / c)
    return S.atom('recip', x)


def sum_of_exps(x):
    """[(c, u), ...] with x = sum c exp(u), at least one u not zero, or None"""
    out = []
    for m, c in sorted(x.t.items()):
        if m == (): out.append((c, ZERO))
        elif len(m) == 1 and m[0] in S.exps: out.append((c, S.exps[m[0]]))
        else: return None
    return out if len(out) > 1 else None


def shifted(x, terms):
    """x = exp(u) y for one of the exponents u, chosen independently of a common shift"""
    if any(u.t == {} for c, u in terms): return ZERO, x
    u = min((u for c, u in terms), key=lambda u: u.key())
    y = ZERO
    for c, w in terms: y = y + fn('exp', w - u) * c
    return u, y


def content(x):
    """the largest coefficient, with the sign it has in the first such monomial"""
    top = max(abs(c) for c in x.t.values())
    first = min(m for m, c in x.t.items() if abs(c) > top * (1 - 1e-3))
    return math.copysign(top, x.t[first])


CONST_FN = dict(sqrt=math.sqrt, exp=math.exp, log=math.log, sin=math.sin, cos=math.cos, tanh=math.tanh, abs=abs,
                log1p=math.log1p, expm1=math.expm1, recip=lambda x: 1 / x, sign=lambda x: (x > 0) - (x < 0),
                logistic=lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0, erf=math.erf,
                asin=math.asin, acos=math.acos, atan=math.atan, tan=math.tan, atan2=math.atan2,
                floor=math.floor, max=max, min=min, ite=lambda c, a, b: a if c else b,
                gt=lambda a, b: float(a > b), eq=lambda a, b: float(a == b),
                argmax=lambda *a: max(range(len(a)), key=lambda i: a[i]), argmin=lambda *a: min(range(len(a)), key=lambda i: a[i]))


def fn(name, *args):
    args = [as_poly(a) for a in args]
    if all(a.is_const() for a in args):
        vals = [a.const() for a in args]
        if name == 'abs': return as_poly(abs(vals[0]))
        if not any(isinstance(v, complex) for v in vals):
            return as_poly(CONST_FN[name](*vals))
    if name == 'exp' and abs(args[0].t.get((), 0.)) > 0 and abs(args[0].t[()]) < 30 and (0,) not in args[0].t:
        c = args[0].t[()]
        return fn('exp', args[0] - c) * math.exp(c)
    if name == 'exp' and len(args[0].t) == 1:                   # exp(log(x)) = x
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and S.atom_def.get(m[0], ('',))[0] == 'log': return S.atom_def[m[0]][1][0]
    if name == 'tanh': return fn('logistic', args[0] * 2) * 2 - 1
    if name == 'logistic' and args[0].t and content(args[0]) < 0: return 1 - fn('logistic', -args[0])
    if name == 'log1p': return fn('log', args[0] + 1)
    if name == 'expm1': return fn('exp', args[0]) - 1
    if name == 'log':
        x = args[0]
        if len(x.t) == 1:
            (m, c), = x.t.items()
            split = [v for v in m if v in S.exps or S.atom_def.get(v, ('',))[0] == 'recip']
            if c > 0 and (split or c != 1) and 0 not in m:
                out = as_poly(math.log(c))
                for v in split: out = out + (S.exps[v] if v in S.exps else -fn('log', S.atom_def[v][1][0]))
                rest = tuple(v for v in m if v not in split)
                return out + (fn('log', Poly({rest: 1.0})) if rest else 0.)
        terms = sum_of_exps(x)
        if terms:
            u, y = shifted(x, terms)
            if u.t: return u + fn('log', y)
    if name in ('sqrt', 'abs') and args[0].t:
        c = abs(content(args[0]))
        if abs(c - 1) > 1e-12: return S.atom(name, args[0] * (1 / c)) * CONST_FN[name](c)
    if name in ('gt', 'eq') and args[1].t == {} and args[0].t:       # comparisons with zero do not depend on the scale
        c = content(args[0])
        if name == 'gt': c = abs(c)
        if abs(c - 1) > 1e-12: return S.atom(name, args[0] * (1 / c), args[1])
    return S.atom(name, *args)


def evaluate(p, env):
    """numeric value of p under {var id: value}; atoms are evaluated by their functions"""
    if not isinstance(p, Poly): return p
    tot = 0
    for m, c in p.t.items():
        v = c
        for i in m: v = v * env_get(i, env)
        tot = tot + v
    return tot


def env_get(i, env):
    if i == 0: return 1j
    if i in env: return env[i]
    f, args = S.atom_def[i]
    vals = [evaluate(a, env) for a in args]
    vals = [v.real if isinstance(v, complex) and abs(v.imag) < 1e-12 else v for v in vals]
    env[i] = CONST_FN[f](*vals)
    return env[i]


DERIV = dict(sqrt=lambda x: recip(fn('sqrt', x)) * .5, exp=lambda x: fn('exp', x), log=lambda x: recip(x),
             sin=lambda x: fn('cos', x), cos=lambda x: -fn('sin', x), log1p=lambda x: recip(as_poly(x) + 1),
             logistic=lambda x: fn('logistic', x) * (1 - fn('logistic', x)), recip=lambda x: -(recip(x) * recip(x)),
             tanh=lambda x: 1 - fn('tanh', x) * fn('tanh', x), abs=lambda x: fn('sign', x), sign=lambda x: ZERO)


def derivative(p, dvar, memo=None):
    """total derivative of p where variable v has derivative dvar.get(v,0)"""
    if memo is None: memo = {}
    p = as_poly(p)
    out = ZERO
    for v in p.vars():
        dv = dvar_of(v, dvar, memo)
        if not dv.t: continue
        part = {}
        for m, c in p.t.items():
            k = m.count(v)
            if k:
                r = list(m); r.remove(v); r = tuple(r)
                part[r] = part.get(r, 0.0) + k * c
        out = out + Poly(part) * dv
    return out


def dvar_of(v, dvar, memo):
    if v in dvar: return as_poly(dvar[v])
    if v in memo: return memo[v]
    if v in S.atom_def:
        f, args = S.atom_def[v]
        da = [derivative(a, dvar, memo) for a in args]
        if all(not d.t for d in da): r = ZERO
        elif len(args) == 1: r = DERIV[f](args[0]) * da[0]
        else: raise Unsupported('derivative of ' + f)
    else: r = ZERO
    memo[v] = r
    return r


def substitute(p, env, memo=None):
    """p with variables replaced by polynomials"""
    if memo is None: memo = {}
    p = as_poly(p)
    out = ZERO
    for m, c in p.t.items():
        term = as_poly(c)
        for v in m: term = term * subst_var(v, env, memo)
        out = out + term
    return out


def subst_var(v, env, memo):
    if v in env: return as_poly(env[v])
    if v in memo: return memo[v]
    if v in S.atom_def:
        f, args = S.atom_def[v]
        na = [substitute(a, env, memo) for a in args]
        r = recip(na[0]) if f == 'recip' else fn(f, *na)
    else: r = Poly({(v,): 1.0})
    memo[v] = r
    return r
