"""Representation expressions, how to build them with the library and what they must mean (independent oracle)."""
import itertools
import numpy as np
import jax.numpy as jnp
import jax
import scipy.linalg


def _xp(*Ms):
    return np if all(isinstance(M, np.ndarray) for M in Ms) else jnp


def block_diag(*Ms):
    return scipy.linalg.block_diag(*Ms) if _xp(*Ms) is np else jax.scipy.linalg.block_diag(*Ms)


class GDef:
    """a group as the user names it; `orth`, `alg`, `disc` are what mathematics says about it, not what the library
    computed: whether inverse transposes are trivial, a basis of the Lie algebra, discrete generators"""
    def __init__(self, name, make, d, orth, alg=(), disc=(), perm=False):
        self.name, self.make, self.d, self.orth, self.perm = name, make, d, orth, perm
        self.alg, self.disc = [np.asarray(a) for a in alg], [np.asarray(h) for h in disc]
        self._g = None

    @property
    def G(self):
        if self._g is None:
            with jax.ensure_compile_time_eval(): self._g = self.make()
        return self._g


def E(n, i, j):
    m = np.zeros((n, n)); m[i, j] = 1.
    return m


def so(n): return [E(n, i, j) - E(n, j, i) for i in range(n) for j in range(i + 1, n)]
def refl(n): return [np.diag([-1.] + [1.] * (n - 1))]
def pm(p): return np.eye(len(p))[np.asarray(p)]
def swaps(n): return [pm(list(range(i)) + [i + 1, i] + list(range(i + 2, n))) for i in range(n - 1)]
def shift(n): return np.roll(np.eye(n), 1, axis=0)
def gl(n): return [E(n, i, j) for i in range(n) for j in range(n)]
def sl(n): return [E(n, i, j) for i in range(n) for j in range(n) if i != j] + [E(n, i, i) - E(n, i + 1, i + 1) for i in range(n - 1)]
def sp(m):
    J = np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])
    return [-J @ (E(2 * m, i, j) + E(2 * m, j, i)) for i in range(2 * m) for j in range(i + 1)]
def so_pq(p, q):
    n, eta = p + q, np.diag([1.] * p + [-1.] * q)
    return [eta @ a for a in so(n)]
def u(n): return [a.astype(complex) for a in so(n)] + [1j * (E(n, i, j) + E(n, j, i)) for i in range(n) for j in range(i)] + [1j * E(n, i, i) for i in range(n)]
def su(n): return [a.astype(complex) for a in so(n)] + [1j * (E(n, i, j) + E(n, j, i)) for i in range(n) for j in range(i)] + [1j * (E(n, i, i) - E(n, i + 1, i + 1)) for i in range(n - 1)]
def rot(k):
    t = 2 * np.pi / k
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
def emb(ms, d, idx, alg):
    out = []
    for m in ms:
        M = np.zeros((d, d)) if alg else np.eye(d)
        M[np.ix_(idx, idx)] = m
        out.append(M)
    return out


_users = {}


def user_group(name, alg=None, disc=None, lazy=False):
    """a group defined by a user of the library"""
    from emlp import groups as g
    from emlp.reps.linear_operators import Lazy
    real = lambda a: np.asarray(a) if np.iscomplexobj(a) else np.asarray(a, float)
    def init(self):
        if alg is not None: self.lie_algebra = [Lazy(real(a)) for a in alg] if lazy else real(alg)
        if disc is not None: self.discrete_generators = [Lazy(np.asarray(a, float)) for a in disc] if lazy else np.asarray(disc, float)
        g.Group.__init__(self)
    if name not in _users: _users[name] = type(name, (g.Group,), dict(__init__=init))
    return _users[name]()


def groups():
    from emlp import groups as g
    shear, heis = [E(2, 0, 1)], [E(3, 0, 1), E(3, 1, 2), E(3, 0, 2)]
    weights, quarter = np.diag([2., -1.]), np.array([[1., 1.], [0., 1.]])
    par, tr = -np.eye(4), np.eye(4)
    spiral = [1j * np.eye(2) + so(2)[0]]           # fixes vectors with complex entries
    spiral3 = np.array([[1, 1j, 0], [-1j, 1, 1], [0, 0, -2]]) * 1j
    par[0, 0] = 1.; tr[0, 0] = -1.
    L = [
        GDef('SO2', lambda: g.SO(2), 2, True, so(2)), GDef('SO3', lambda: g.SO(3), 3, True, so(3)), GDef('SO4', lambda: g.SO(4), 4, True, so(4)),
        GDef('O2', lambda: g.O(2), 2, True, so(2), refl(2)), GDef('O3', lambda: g.O(3), 3, True, so(3), refl(3)), GDef('O1', lambda: g.O(1), 1, True, [], refl(1)),
        GDef('S2', lambda: g.S(2), 2, True, [], swaps(2), True), GDef('S3', lambda: g.S(3), 3, True, [], swaps(3), True),
        GDef('S4', lambda: g.S(4), 4, True, [], swaps(4), True), GDef('S5', lambda: g.S(5), 5, True, [], swaps(5), True),
        GDef('Z2', lambda: g.Z(2), 2, True, [], [shift(2)], True), GDef('Z3', lambda: g.Z(3), 3, True, [], [shift(3)], True),
        GDef('Z4', lambda: g.Z(4), 4, True, [], [shift(4)], True), GDef('Z5', lambda: g.Z(5), 5, True, [], [shift(5)], True),
        GDef('C4', lambda: g.C(4), 2, True, [], [rot(4)]), GDef('C3', lambda: g.C(3), 2, True, [], [rot(3)]), GDef('C5', lambda: g.C(5), 2, True, [], [rot(5)]),
        GDef('D4', lambda: g.D(4), 2, True, [], [rot(4), np.diag([-1., 1.])]), GDef('D3', lambda: g.D(3), 2, True, [], [rot(3), np.diag([-1., 1.])]),
        GDef('Tr2', lambda: g.Trivial(2), 2, True, [], [], True),
        GDef('SL2', lambda: g.SL(2), 2, False, sl(2)), GDef('SL3', lambda: g.SL(3), 3, False, sl(3)), GDef('GL2', lambda: g.GL(2), 2, False, gl(2)),
        GDef('GL3', lambda: g.GL(3), 3, False, gl(3)),
        GDef('Sp1', lambda: g.Sp(1), 2, False, sp(1)), GDef('Sp2', lambda: g.Sp(2), 4, False, sp(2)), GDef('SO13', lambda: g.SO13(), 4, False, so_pq(1, 3), [-np.eye(4)]),
        GDef('SO13p', lambda: g.SO13p(), 4, False, so_pq(1, 3)), GDef('O13', lambda: g.O13(), 4, False, so_pq(1, 3), [par, tr]),
        GDef('Lorentz', lambda: g.Lorentz(), 4, False, so_pq(1, 3), [par, tr]),
        GDef('SO11p', lambda: g.SO11p(), 2, False, so_pq(1, 1)), GDef('O11', lambda: g.O11(), 2, False, so_pq(1, 1), [np.diag([1., -1.]), np.diag([-1., 1.])]),
        GDef('Sc2', lambda: g.Scaling(2), 2, False, [np.eye(2)]),
        GDef('U1', lambda: g.U(1), 1, False, u(1)), GDef('U2', lambda: g.U(2), 2, False, u(2)), GDef('SU2', lambda: g.SU(2), 2, False, su(2)), GDef('SU3', lambda: g.SU(3), 3, False, su(3)),
        GDef('SO2eR3', lambda: g.SO2eR3(), 3, True, emb(so(2), 3, [0, 1], True)), GDef('O2eR3', lambda: g.O2eR3(), 3, True, emb(so(2), 3, [0, 1], True), emb(refl(2), 3, [0, 1], False)),
        GDef('D3eR3', lambda: g.DkeR3(3), 3, True, [], emb([rot(3), np.diag([-1., 1.])], 3, [0, 1], False)),
        GDef('Z2inR4', lambda: g.Embed(g.Z(2), 4, slice(1, 3)), 4, True, [], emb([shift(2)], 4, [1, 2], False), True),
        GDef('SL2inR3', lambda: g.Embed(g.SL(2), 3, slice(1, None)), 3, False, emb(sl(2), 3, [1, 2], True)),
        GDef('Shear', lambda: user_group('Shear', shear), 2, False, shear), GDef('Heis', lambda: user_group('Heis', heis, lazy=True), 3, False, heis),
        GDef('Weights', lambda: user_group('Weights', [weights], [np.diag([1., -1.])]), 2, False, [weights], [np.diag([1., -1.])]),
        GDef('DShear', lambda: user_group('DShear', None, [quarter]), 2, False, [], [quarter]),
        GDef('Spiral', lambda: user_group('Spiral', spiral), 2, False, spiral), GDef('Spirals', lambda: user_group('Spirals', [spiral3]), 3, False, [spiral3]),
        GDef('S3xZ2', lambda: g.S(3) * g.Z(2), 6, True, [], [np.kron(h, np.eye(2)) for h in swaps(3)] + [np.kron(np.eye(3), shift(2))], True),
        GDef('SO2xZ2', lambda: g.SO(2) * g.Z(2), 4, True, [np.kron(a, np.eye(2)) for a in so(2)], [np.kron(np.eye(2), shift(2))]),
        GDef('SL2xS2', lambda: g.SL(2) * g.S(2), 4, False, [np.kron(a, np.eye(2)) for a in sl(2)], [np.kron(np.eye(2), shift(2))]),
        GDef('Z2xSO2', lambda: g.Z(2) * g.SO(2), 4, True, [np.kron(np.eye(2), a) for a in so(2)], [np.kron(shift(2), np.eye(2))]),
    ]
    return {q.name: q for q in L}


def generators(names, gs):
    """every generator of the product group: (algebra?, {group: matrix})"""
    out = []
    for g in names:
        for A in gs[g].alg: out.append((True, {q: (A if q == g else np.zeros((gs[q].d,) * 2)) for q in names}))
        for h in gs[g].disc: out.append((False, {q: (h if q == g else np.eye(gs[q].d)) for q in names}))
    return out


def constraints(e, gs, names=None):
    """the matrices that must annihilate every invariant vector (numpy, double precision)"""
    out = []
    for cont, Ms in generators(sorted(gnames(e)) if names is None else names, gs):
        out.append(drho(e, Ms, gs) if cont else rho(e, Ms, gs) - np.eye(size(e, gs)))
    return out


def actions(e, gs, names):
    """[(algebra?, matrix of the generator in the representation)]"""
    return [(cont, drho(e, Ms, gs) if cont else rho(e, Ms, gs)) for cont, Ms in generators(names, gs)]


# expression := ('V',g) | ('S',) | ('T',e) | ('+',e,e) | ('*',e,e) | ('n',k,e) | ('^',e,k) | ('i',k,e): k + e | ('C',g) custom rep
def show(e):
    t = e[0]
    if t == 'V': return 'V%s' % e[1]
    if t == 'C': return 'X%s' % e[1]
    if t == 'S': return '1'
    if t == 'T': return '%s.T' % show(e[1])
    if t in '+*': return '(%s%s%s)' % (show(e[1]), t, show(e[2]))
    if t == 'n': return '%d%s' % (e[1], show(e[2]))
    if t == '^': return '%s^%d' % (show(e[1]), e[2])
    if t == 'i': return '(%d+%s)' % (e[1], show(e[2]))


def gnames(e):
    if e[0] in ('V', 'C'): return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple): out |= gnames(x)
    return out


_custom = {}


def custom_rep():
    """a user defined representation with only rho (A -> its symmetric action on pairs), as in the documentation"""
    if 'c' not in _custom:
        from emlp.reps import Rep
        class Pairs(Rep):
            def __init__(self, G=None):
                self.G = G
            def __call__(self, G): return self.__class__(G)
            def rho(self, M):
                if hasattr(self, 'G') and isinstance(M, dict): M = M[self.G]
                return jnp.kron(M, M)
            def size(self): return self.G.d ** 2
            def __str__(self): return 'Pairs'
            @property
            def T(self):
                from emlp.reps.representation import Dual
                return Dual(self) if not (self.G is not None and self.G.is_orthogonal) else self
        _custom['c'] = Pairs
    return _custom['c']


def build(e, gs, deferred=False):
    from emlp.reps import V, Scalar
    t = e[0]
    if t == 'V': return V if deferred else V(gs[e[1]].G)
    if t == 'C': return custom_rep()() if deferred else custom_rep()(gs[e[1]].G)
    if t == 'S': return Scalar
    if t == 'T': return build(e[1], gs, deferred).T
    if t == '+': return build(e[1], gs, deferred) + build(e[2], gs, deferred)
    if t == '*': return build(e[1], gs, deferred) * build(e[2], gs, deferred)
    if t == 'n': return e[1] * build(e[2], gs, deferred)
    if t == '^': return build(e[1], gs, deferred) ** e[2]
    if t == 'i': return e[1] + build(e[2], gs, deferred)


def size(e, gs):
    t = e[0]
    if t == 'V': return gs[e[1]].d
    if t == 'C': return gs[e[1]].d ** 2
    if t == 'S': return 1
    if t == 'T': return size(e[1], gs)
    if t == '+': return size(e[1], gs) + size(e[2], gs)
    if t == '*': return size(e[1], gs) * size(e[2], gs)
    if t == 'n': return e[1] * size(e[2], gs)
    if t == '^': return size(e[1], gs) ** e[2]
    if t == 'i': return e[1] + size(e[2], gs)


def rho(e, Ms, gs, dual=False):
    """the matrix the expression stands for: block diagonal sums, kronecker products, inverse transposes of duals"""
    t = e[0]
    if t in 'VC':
        M = Ms[e[1]]
        xp = _xp(M)
        if dual and not gs[e[1]].orth: M = xp.linalg.inv(M).T
        return M if t == 'V' else xp.kron(M, M)
    if t == 'S': return np.eye(1)
    if t == 'T': return rho(e[1], Ms, gs, not dual)
    if t == '+': return block_diag(rho(e[1], Ms, gs, dual), rho(e[2], Ms, gs, dual))
    if t == '*': return kron(rho(e[1], Ms, gs, dual), rho(e[2], Ms, gs, dual))
    if t == 'n': return block_diag(*([rho(e[2], Ms, gs, dual)] * e[1]))
    if t == '^':
        out = np.eye(1)
        for _ in range(e[2]): out = kron(out, rho(e[1], Ms, gs, dual))
        return out
    if t == 'i': return block_diag(np.eye(e[1]), rho(e[2], Ms, gs, dual))


def drho(e, As, gs, dual=False):
    """its Lie algebra representation (product rule), written out independently of the library"""
    t = e[0]
    if t in 'VC':
        A = As[e[1]]
        if dual and not gs[e[1]].orth: A = -A.T
        return A if t == 'V' else ksum(A, A)
    if t == 'S': return np.zeros((1, 1))
    if t == 'T': return drho(e[1], As, gs, not dual)
    if t == '+': return block_diag(drho(e[1], As, gs, dual), drho(e[2], As, gs, dual))
    if t == '*': return ksum(drho(e[1], As, gs, dual), drho(e[2], As, gs, dual))
    if t == 'n': return block_diag(*([drho(e[2], As, gs, dual)] * e[1]))
    if t == '^':
        out = np.zeros((1, 1))
        for _ in range(e[2]): out = ksum(out, drho(e[1], As, gs, dual))
        return out
    if t == 'i': return block_diag(np.zeros((e[1], e[1])), drho(e[2], As, gs, dual))


def kron(A, B):
    return _xp(A, B).kron(A, B)


def ksum(A, B):
    return kron(A, np.eye(B.shape[0])) + kron(np.eye(A.shape[0]), B)


def V(g): return ('V', g)
def D(e): return ('T', e)
def plus(*es):
    out = es[0]
    for e in es[1:]: out = ('+', out, e)
    return out
def times(*es):
    out = es[0]
    for e in es[1:]: out = ('*', out, e)
    return out
Sc = ('S',)
def n(k, e): return ('n', k, e)
def pw(e, k): return ('^', e, k)


def single_group(g, orth):
    """a fixed family of expressions over one group"""
    v = V(g)
    out = [v, plus(v, v), n(3, v), times(v, v), plus(times(v, v), v), plus(v, Sc, v), ('i', 2, v), plus(v, ('i', 1, v)),
           pw(v, 3), plus(pw(v, 2), v, Sc), times(plus(v, Sc), plus(Sc, v)), times(plus(v, Sc), v), times(v, plus(v, Sc)),
           times(plus(v, pw(v, 2)), plus(Sc, Sc)), times(n(2, v), n(2, Sc)), times(plus(v, Sc, v), plus(Sc, v)),
           pw(plus(v, Sc), 2), times(n(2, plus(v, Sc)), v), plus(times(v, plus(v, Sc)), v), pw(v, 0), n(2, pw(v, 2)),
           plus(n(2, pw(v, 2)), n(2, v), n(2, Sc)), times(plus(Sc, v), n(2, v)), ('C', g), plus(('C', g), v), times(('C', g), v),
           plus(v, ('C', g), Sc), n(9, v), plus(n(9, Sc), v, n(10, Sc)), pw(v, 4), plus(v, n(3, Sc), n(4, v), Sc)]
    if not orth:
        d = D(v)
        out += [d, plus(d, v), plus(v, d, v), times(d, v), times(v, d), times(v, d, v), times(d, v, v), plus(times(v, d), v, d),
                times(plus(v, d), plus(d, v)), times(plus(d, Sc), plus(v, d)), D(plus(v, Sc)), D(times(v, v)), D(times(v, d)), D(plus(times(v, d), d, v)),
                D(times(plus(v, d), v)), D(D(v)), D(D(plus(d, v))), times(pw(v, 2), d), times(pw(d, 2), v), n(2, times(d, v)), times(plus(v, d), D(plus(v, d))),
                D(('C', g)), plus(D(('C', g)), v), plus(d, n(2, times(v, d)), Sc)]
    return out


def two_groups(a, b, oa, ob):
    x, y = V(a), V(b)
    out = [plus(x, y), plus(y, x), times(x, y), times(y, x), plus(times(x, y), x), plus(y, times(x, y), x), times(x, y, x), times(y, x, y),
           plus(plus(x, y), plus(x, y)), plus(plus(y, x), plus(x, y), Sc), times(plus(x, y), x), times(plus(x, Sc), plus(y, Sc)), times(x, plus(y, x)),
           times(plus(x, y), plus(x, y)), plus(n(2, times(x, y)), n(2, y)), times(pw(x, 2), y), times(y, pw(x, 2)), plus(times(y, x), times(x, y)),
           times(times(x, y), times(x, y)), plus(times(x, y), y, times(y, y)), n(2, times(y, x))]
    if not oa:
        out += [times(D(x), y), times(x, y, D(x)), times(D(x), y, x), plus(D(x), y, x), times(x, D(x), y), D(times(x, y)), D(plus(x, y)), times(plus(D(x), y), plus(x, y)),
                plus(plus(x, y), plus(D(x), y))]
    if not ob:
        out += [times(x, D(y)), times(y, x, D(y)), times(D(y), x, y), plus(D(y), x, y), plus(x, D(y)), plus(plus(x, D(y)), plus(y, D(y))), D(plus(y, x, Sc))]
    if not oa and not ob:
        out += [plus(x, D(x), y, D(y)), plus(y, D(y), x, D(x)), plus(plus(D(x), D(y)), plus(x, y)), times(D(x), D(y), x), times(x, D(y), D(x))]
    return out


def three_groups(a, b, c):
    x, y, z = V(a), V(b), V(c)
    return [plus(plus(x, y), times(y, z)), plus(times(y, z), plus(y, x)), times(x, y, z), times(z, y, x), plus(x, y, z), plus(z, times(x, y)), times(plus(x, y), z), times(plus(x, z), plus(y, x)),
            plus(plus(x, times(y, z)), plus(y, x, times(z, y))), times(x, y, z, x)]


def random_expr(rng, gnames_, orth, depth, allow_scalar=True):
    if depth == 0 or rng.random() < .15:
        g = gnames_[rng.integers(len(gnames_))]
        r = rng.random()
        if allow_scalar and r < .15: return Sc
        if r < .4: return D(V(g))
        return V(g)
    r = rng.random()
    if r < .4: return ('+', random_expr(rng, gnames_, orth, depth - 1), random_expr(rng, gnames_, orth, depth - 1))
    if r < .75: return ('*', random_expr(rng, gnames_, orth, depth - 1), random_expr(rng, gnames_, orth, depth - 1))
    if r < .85: return ('n', int(rng.integers(2, 4)), random_expr(rng, gnames_, orth, depth - 1, False))
    if r < .92: return ('T', random_expr(rng, gnames_, orth, depth - 1, False))
    if r < .96: return ('^', random_expr(rng, gnames_, orth, depth - 1, False), 2)
    return ('i', int(rng.integers(1, 3)), random_expr(rng, gnames_, orth, depth - 1, False))


class order:
    """the order in which the library sorts groups is their hash order, which differs between processes: impose one"""
    def __init__(self, names, gs):
        self.t = {repr(gs[g].G): 1000 * (i + 1) for i, g in enumerate(names)}

    def __enter__(self):
        from emlp.groups import Group
        self.old = Group.__hash__
        old, t = self.old, self.t
        Group.__hash__ = lambda s: t.get(repr(s), None) if repr(s) in t else old(s)

    def __exit__(self, *a):
        from emlp.groups import Group
        Group.__hash__ = self.old


def family(gs, thorough, maxn, seed, nrandom, singles=('SO2', 'SL2', 'S3'), pairs=(('SL2', 'S3'), ('SO2', 'Z3'), ('SL2', 'SO11p')),
           triples=(('S4', 'Z2', 'SO2'),), thin=1, offset=0):
    """(name, expression, order of the groups or None); thin=k keeps every k-th pattern"""
    out = []
    if thorough:
        singles = ('SO2', 'SL2', 'S3', 'SO3', 'SL3', 'Sp1', 'GL2', 'O13', 'SO11p', 'Z3', 'Tr2')
        pairs = (('SL2', 'S3'), ('SO2', 'Z3'), ('SL2', 'SO11p'), ('Sp1', 'SL3'), ('S2', 'SO2'), ('Z2', 'SL2'))
        triples = (('S4', 'Z2', 'SO2'), ('SL2', 'Z3', 'O2'), ('Z2', 'SL2', 'S4'))
        thin = 1
    for g in singles:
        for e in single_group(g, gs[g].orth)[offset % thin::thin]:
            if size(e, gs) <= maxn: out.append(('one/%s' % show(e), e, None))
    k = 0
    for a, b in pairs:
        for e in two_groups(a, b, gs[a].orth, gs[b].orth):
            if size(e, gs) > maxn or len(gnames(e)) < 2: continue
            for o in ((a, b), (b, a)):
                k += 1
                if (k + offset) % thin == 0: out.append(('mixed/%s/order %s' % (show(e), '<'.join(o)), e, o))
    for t in triples:
        for e in three_groups(*t):
            if size(e, gs) > maxn: continue
            for o in itertools.permutations(t) if thorough else [t, t[::-1], t[1:] + t[:1]]:
                k += 1
                if (k + offset) % thin == 0: out.append(('mixed3/%s/order %s' % (show(e), '<'.join(o)), e, o))
    rng = np.random.default_rng(1000 * seed + offset)
    k = 0
    while k < nrandom:
        names = [['SL2'], ['SL2', 'S3'], ['SO2', 'SL2'], ['S3']][rng.integers(4)]
        e = random_expr(rng, names, {}, int(rng.integers(2, 4)))
        if not 4 <= size(e, gs) <= maxn or not gnames(e): continue
        k += 1
        o = tuple(str(q) for q in rng.permutation(names))
        out.append(('random%d/%s' % (k, show(e)), e, o if len(gnames(e)) > 1 else None))
    return out


class ordered:
    def __init__(self, o, gs): self.c = order(o, gs) if o else None
    def __enter__(self):
        if self.c: self.c.__enter__()
    def __exit__(self, *a):
        if self.c: self.c.__exit__(*a)


class collide:
    """hash values are arbitrary (they depend on addresses): choose values which collide in every small set, so that sets
    are traversed in the order of insertion, or in the reverse of the natural order"""
    def __init__(self, sign=1): self.sign = sign
    def __enter__(self):
        from emlp.reps.representation import Rep, Dual, Base
        from emlp.reps.product_sum_reps import ProductRep, DirectProduct
        self.old = [(c, c.__dict__['__hash__']) for c in (Rep, Base, Dual, ProductRep, DirectProduct) if '__hash__' in c.__dict__]
        for c, h in self.old: c.__hash__ = (lambda h: lambda s: self.sign * 64 * (1 + h(s) % 99991))(h)
    def __exit__(self, *a):
        for c, h in self.old: c.__hash__ = h


def element(e, gs, Ms):
    """the argument the library expects: a matrix, or a matrix per group"""
    names = sorted(gnames(e))
    return Ms[names[0]] if len(names) == 1 else {gs[g].G: Ms[g] for g in names}


def solvable(gs, thorough, seed, maxn, nrandom):
    """(name, expression, order): representations whose equivariant subspace is checked, over every kind of group"""
    out = []
    def pats(g):
        v, d = V(g), D(V(g))
        L = [v, pw(v, 2), times(v, d), pw(v, 3), plus(v, Sc), plus(pw(v, 2), v, n(2, Sc)), n(2, pw(v, 2)), times(plus(v, Sc), plus(v, Sc)), times(plus(Sc, v), plus(v, Sc, v)),
             plus(v, pw(v, 2), v), times(plus(v, pw(v, 2)), d), plus(n(9, v), n(10, Sc)), plus(n(9, times(v, d)), v)]
        if not gs[g].orth: L += [times(v, v, d), times(d, v, d), plus(times(d, v), d, times(v, d)), times(plus(d, v), plus(v, Sc)), D(plus(times(v, d), v)), pw(d, 2), times(pw(v, 2), pw(d, 2))]
        return L
    every = [g for g in gs]
    for k, g in enumerate(every):
        L = [e for e in pats(g) if size(e, gs) <= maxn]
        if not thorough: L = [e for i, e in enumerate(L) if (i + k + seed) % 3 == 0 or i in (2,)]
        for e in L: out.append(('one/%s' % show(e), e, None))
    for g in ('SO2', 'SL2', 'C3'):   # user representations are written for dense generators
        for e in [('C', g), plus(('C', g), V(g)), times(('C', g), D(V(g)))]:
            if size(e, gs) <= maxn: out.append(('custom/%s' % show(e), e, None))
    pairs = [('SL2', 'S3'), ('SO2', 'Z3'), ('SO3', 'S3'), ('O2', 'SO11p'), ('U1', 'S2'), ('SO2eR3', 'Z2')] + ([('Sp1', 'SL2'), ('O3', 'Z2'), ('S2', 'SO2'), ('Tr2', 'SL2'), ('SU2', 'Z3')] if thorough else [])
    k = 0
    for a, b in pairs:
        x, y = V(a), V(b)
        L = [plus(x, y), times(x, y), times(y, x), times(x, y, D(x)), times(x, y, D(x), y), times(y, x, y, D(x)), times(x, D(x), y), plus(times(x, D(x), y), y, x), times(plus(x, y), plus(D(x), y)), times(plus(y, D(x)), plus(x, Sc)),
             plus(times(y, y), times(x, y, D(x), y)), times(plus(x, y, Sc), plus(y, D(x))), n(2, times(y, x, D(x))), times(times(y, x), times(D(x), y))]
        for e in L:
            if size(e, gs) > maxn: continue
            for o in ((a, b), (b, a)):
                k += 1
                if thorough or k % 3 == 0: out.append(('mixed/%s/order %s' % (show(e), '<'.join(o)), e, o))
    for a, b, c in [('Z2', 'SO2', 'S3')] + ([('SL2', 'Z2', 'S3')] if thorough else []):
        x, y, z = V(a), V(b), V(c)
        for e in [times(x, y, z, D(y)), plus(times(y, D(y), z), x), times(plus(x, z), plus(y, D(y), x)), times(z, x, y, D(y))]:
            if size(e, gs) > maxn: continue
            for o in [(a, b, c), (c, a, b)]: out.append(('mixed3/%s/order %s' % (show(e), '<'.join(o)), e, o))
    rng = np.random.default_rng(77 + seed)
    k = 0
    while k < nrandom:
        names = [['SL2'], ['SL2', 'S3'], ['SO2', 'Z3'], ['S3'], ['SO3'], ['Sp1']][rng.integers(6)]
        e = random_expr(rng, names, {}, int(rng.integers(2, 4)))
        if not 4 <= size(e, gs) <= maxn or not gnames(e): continue
        k += 1
        o = tuple(str(q) for q in rng.permutation(names))
        out.append(('random%d/%s' % (k, show(e)), e, o if len(gnames(e)) > 1 else None))
    return out
