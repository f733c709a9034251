"""C21: groups and representations that compare equal have equal hashes and are interchangeable."""
import inspect
import itertools
import re
import numpy as np
import jax
import jax.numpy as jnp
import z3
from symx import exprs as X, smt, poly
from symx.core import CheckError, Free, GL
from symx.pathint import SymBool, Path, explore
SHARDS = {'quick': 8, 'thorough': 8}


class Marked(int):
    """an integer argument whose printed form is a marker: the representation string becomes symbolic in it"""
    def __new__(cls, v, name, e=None):
        self = int.__new__(cls, v)
        self.name, self.e = name, z3.Int(name) if e is None else e
        TABLE[self.mark()] = self.e
        return self
    def mark(self): return '\u27e6%s\u27e7' % self.name
    __repr__ = __str__ = lambda self: self.mark()
    def __format__(self, spec): return self.mark()
    def _op(f, g, s):
        def h(self, o):
            if not isinstance(o, int): return NotImplemented
            oe = o.e if isinstance(o, Marked) else int(o)
            return Marked(f(int(self), int(o)), '%s%s%s' % (self.name, s, o), g(self.e, oe))
        return h
    __add__ = __radd__ = _op(lambda a, b: a + b, lambda a, b: a + b, '+')
    __sub__ = _op(lambda a, b: a - b, lambda a, b: a - b, '-')
    __mul__ = __rmul__ = _op(lambda a, b: a * b, lambda a, b: a * b, '*')
    del _op


TABLE = {}


DIGITS = z3.Union(z3.Re('0'), z3.Concat(z3.Range('1', '9'), z3.Star(z3.Range('0', '9'))))


def decimal(e):
    """an integer argument in decimal is a free string of that form; computed ones keep their value"""
    return z3.String('str_' + str(e)) if e.decl().arity() == 0 and not z3.is_int_value(e) else z3.IntToStr(e)


def symbolic(text):
    """a printed form with markers as a z3 string"""
    parts = []
    for piece in re.split('(\u27e6[^\u27e7]*\u27e7)', text):
        if not piece: continue
        if piece in TABLE: parts.append(decimal(TABLE[piece]))
        elif '\u27e6' in piece or '\u27e7' in piece: raise CheckError('the printed form is cut into pieces: %s' % text)
        else: parts.append(z3.StringVal(piece))
    return z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.StringVal('')


SIZES = dict(SO=2, O=2, C=3, D=3, Scaling=2, Sp=1, Z=2, S=2, SL=2, GL=1, U=1, SU=2, Trivial=1)


def constructors():
    """library classes whose constructor takes integers, with the sizes they are run on"""
    from emlp import groups as g
    out = []
    for name, cls in vars(g).items():
        if not (inspect.isclass(cls) and issubclass(cls, g.Group)) or cls is g.Group: continue
        try: sig = list(inspect.signature(cls.__init__).parameters)[1:]
        except Exception: continue
        if name in ('Embed', 'DirectProduct', 'WreathProduct', 'SemiDirectProduct'): continue
        if cls.__init__ is g.Group.__init__: sig = []
        out.append((name, cls, sig))
    return out + users()


_users = []


def users():
    """groups a user defines along the lines of the documentation, with several integers"""
    from emlp import groups as g
    if not _users:
        class Indefinite(g.Group):
            def __init__(self, p, q):
                self.lie_algebra = np.asarray(X.so_pq(int(p), int(q))).reshape(-1, int(p) + int(q), int(p) + int(q))
                self.d = int(p) + int(q)
                super().__init__(p, q)
        class Step(g.Group):
            def __init__(self, n, i, j):
                self.discrete_generators = np.eye(int(n))[None] + int(i) * X.E(int(n), 0, int(j) % int(n))
                super().__init__(n, i, j)
        _users.extend([('Indefinite', Indefinite, ['p', 'q']), ('Step', Step, ['n', 'i', 'j'])])
    return list(_users)


def trials(name, sig):
    if name == 'ZksZnxZn': return [(2, 2), (4, 3), (4, 2)]
    lo = SIZES.get(name, 2)
    return [tuple(lo + 1 + k + j for j in range(len(sig))) for k in range(3)]


def dense(op, d):
    return np.asarray(op @ jnp.eye(d)) if not hasattr(op, 'to_dense') else np.asarray(op.to_dense())


def gens(G): return G.d, [dense(a, G.d) for a in G.lie_algebra], [dense(h, G.d) for h in G.discrete_generators]


def same(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and len(a[2]) == len(b[2]) and all(np.shape(p) == np.shape(q) and np.abs(p - q).max(initial=0) < 1e-6 for p, q in zip(a[1] + a[2], b[1] + b[2]))


def run(ctx):
    gs = X.groups()
    ctx.encodes('Group.__repr__', 'Group.__eq__', 'Group.__hash__', 'Embed.__repr__', 'DirectProduct.__repr__', 'Rep.__eq__', 'Rep.__hash__', 'Base.__eq__', 'Dual.__eq__', 'SumRep.__eq__', 'ProductRep.__eq__', 'SumRep.__hash__', 'ProductRep.__hash__')
    ctx.assume('a constructor passes its arguments on independently of their size (checked on three sizes); integer arguments are printed in decimal')
    ctx.bound('all integer arguments >= 0 of the library constructors; composites of groups with arbitrary names; all pairs of %d groups and of the representations of the expression family' % len(gs))
    cons = constructors()
    for (n1, c1, s1), (n2, c2, s2) in itertools.combinations_with_replacement(cons, 2):
        if s1 or s2 or n1 != n2: ctx.obligation('names/%s, %s' % (n1, n2), lambda n1=n1, c1=c1, s1=s1, n2=n2, c2=c2, s2=s2: names(ctx, 'names/%s, %s' % (n1, n2), (n1, c1, s1), (n2, c2, s2)))
    ctx.obligation('redefined class', lambda: redefined(ctx, 'redefined class'))
    ctx.obligation('direct product', lambda: product(ctx, 'direct product'))
    for k, (d, sl, d2, sl2) in enumerate([(3, slice(2), 3, slice(2)), (3, slice(2), 4, slice(2)), (4, slice(1, 3), 4, slice(2)), (4, slice(0, 3, 2), 4, slice(0, 2)), (13, slice(1, 3), 3, slice(1, 3)), (4, slice(-2, None), 4, slice(2, 4)), (12, slice(0, 12, 11), 12, slice(1, 12, 10)), (12, slice(10, None), 12, slice(0, 11, 10))]):
        name = 'embedding/%d %s, %d %s' % (d, sl, d2, sl2)
        ctx.obligation(name, lambda name=name, a=(d, sl), b=(d2, sl2): embedding(ctx, name, a, b))
    ctx.obligation('groups', lambda: concrete(ctx, 'groups', gs))
    shapes(ctx)
    pairs(ctx, gs)
    if ctx.only is None and ctx.mine('vacuity'):
        a, b, c, d = z3.Ints('a b c d')
        s = z3.Solver()
        s.add(*[z3.InRe(decimal(q), DIGITS) for q in (a, b, c, d)])
        s.add(z3.Concat(z3.StringVal('Sp('), decimal(a), decimal(b)) == z3.Concat(z3.StringVal('Sp('), decimal(c), decimal(d)), decimal(a) != decimal(c))
        if smt.strings(s) != 'sat': ctx.error('vacuity', 'vacuous: ambiguous printing was not found')
        else: ctx.witness += 1


def printed(ctx, cls, name, sig, pre):
    """the printed form as a function of the arguments, from real constructors on marked integers; None: not symbolic"""
    out = []
    for t in trials(name, sig):
        args = [Marked(v, pre + p) for v, p in zip(t, sig)]
        with jax.ensure_compile_time_eval():
            plain = ctx.real(cls, *t)
            try: G = cls(*args)
            except Exception: return None
        text = repr(G)
        if repr(plain) != re.sub('\u27e6[^\u27e7]*\u27e7', lambda m: str(z3.simplify(z3.substitute(TABLE[m.group()], *[(a.e, z3.IntVal(int(a))) for a in args]))) if m.group() in TABLE else m.group(), text):
            raise CheckError('marked and plain arguments print differently: %s, %s' % (text, plain))
        out.append(text)
    if len(set(out)) > 1: return None
    return symbolic(out[0]), [z3.Int(pre + p) for p in sig]


def z3_uses_int(e): return 'str.from_int' in e.sexpr() or 'int.to.str' in e.sexpr()


def names(ctx, name, one, two):
    same_class = one[1] is two[1]
    A, B = printed(ctx, one[1], one[0], one[2], 'a_'), printed(ctx, two[1], two[0], two[2], 'b_')
    if A is None or B is None:
        return enumerate_pair(ctx, name, one, two)
    s = z3.Solver()
    s.add(A[0] == B[0], *[q >= 0 for q in A[1] + B[1]])
    s.add(*[z3.InRe(decimal(q), DIGITS) for q in A[1] + B[1]])
    if z3_uses_int(A[0]) or z3_uses_int(B[0]): s.add(*[decimal(q) == z3.IntToStr(q) for q in A[1] + B[1]])
    if same_class: s.add(z3.Or(*[decimal(p) != decimal(q) for p, q in zip(A[1], B[1])]))
    r = smt.strings(s)
    if r == 'unsat': return ctx.done(name, 'printed forms never coincide')
    if r == 'unknown': raise CheckError('solver returned unknown')
    return enumerate_pair(ctx, name, one, two)


def enumerate_pair(ctx, name, one, two, top=13):
    """the printed forms coincide or cannot be made symbolic: do the real objects compare equal and differ?"""
    def build(c):
        vals = itertools.product(range(1, top), repeat=len(c[2])) if len(c[2]) < 2 else itertools.product((1, 2, 11, 12), repeat=len(c[2])) if c[0] != 'ZksZnxZn' else itertools.product((2, 4), (1, 2, 3))
        for v in vals:
            try:
                with jax.ensure_compile_time_eval(): yield v, c[1](*v)
            except Exception: pass
    As = list(build(one))
    Bs = As if one[1] is two[1] else list(build(two))
    for v, G in As:
        for w, H in Bs:
            if G == H and not same(gens(G), gens(H)):
                return ctx.violation(name, '%s%s and %s%s compare equal and have different generators' % (one[0], v, two[0], w), dict(a=list(v), b=list(w)))
            if G == H and hash(G) != hash(H): return ctx.violation(name, '%s%s and %s%s compare equal and have different hashes' % (one[0], v, two[0], w))
    ctx.done(name, 'objects that are printed alike do not compare equal, or are the same')


def redefined(ctx, name):
    """a user's class, defined again or with the name of a library class, is another group: its solutions are its own"""
    from emlp import groups as g
    from emlp.reps import V
    def make(cname, alg):
        def init(self, n=2):
            self.lie_algebra = np.asarray([alg], float)
            g.Group.__init__(self, n)
        return type(cname, (g.Group,), dict(__init__=init, __module__='__main__'))
    S = np.array([[0., 1.], [0., 0.]])
    with jax.ensure_compile_time_eval():
        groups = [make('Mine', S)(), make('Mine', S.T)(), make('Mine', np.diag([1., -1.]))(), make('SO', S)(2), g.SO(2), make('Scaling', S)(2), g.Scaling(2)]
        cases = [(x, y) for x, y in itertools.permutations(groups, 2)]
        cases += [(x * h, y * h) for x, y in itertools.permutations(groups, 2) for h in (g.S(2),)] + [(h * x, h * y) for x, y in itertools.permutations(groups, 2) for h in (g.S(2),)]
        cases += [(g.Embed(x, 3, slice(2)), g.Embed(y, 3, slice(2))) for x, y in itertools.permutations(groups, 2)]
        one = make('Line', np.array([[1.]]))
        def scaling1(): return g.Scaling(1)
        cases += [(g.Embed(scaling1() * g.SO(2), 3, slice(2)), scaling1() * g.Embed(g.SO(2), 3, slice(2)))]
    for x, y in cases:
        if x == y and not same(gens(x), gens(y)): return ctx.violation(name, '%s and %s of different classes compare equal and have different generators' % (x, y))
        if x == y and hash(x) != hash(y): return ctx.violation(name, '%s and %s compare equal and have different hashes' % (x, y))
        for r in (lambda G: V(G), lambda G: V(G) * V(G), lambda G: V(G) * V(G) + V(G)):
            if r(x) == r(y) and not same(gens(x), gens(y)): return ctx.violation(name, 'representations of %s and %s compare equal though the groups have different generators' % (x, y))
    for x, y in cases[:6]:
        b = [np.asarray((lambda q: q.to_dense() if hasattr(q, 'to_dense') else q)(ctx.real((V(G) * V(G)).equivariant_basis))) for G in (x, y)]
        for G, Q in zip((x, y), b):
            K = np.concatenate([np.kron(A, np.eye(2)) + np.kron(np.eye(2), A) for A in gens(G)[1]])
            if np.abs(K @ Q).max(initial=0) > 1e-3 or Q.shape[1] != 4 - np.linalg.matrix_rank(K, tol=1e-4): return ctx.violation(name, 'the solutions for %s are those of another group of that name' % G)
    ctx.done(name, '%d pairs' % len(cases))


class Unknown:
    """mixin: groups that print and hash alike, whose equality is a boolean variable"""
    def __repr__(self): return 'Twin'
    def __hash__(self): return 5
    def __eq__(self, o):
        if self is o: return True
        if not isinstance(o, Unknown): return False
        if self.label == o.label: return True
        return SymBool(z3.Bool('eq_' + ''.join(sorted(self.label + o.label))))
    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r


_twin = []


def twins(labels, d=2):
    from emlp import groups as g
    if not _twin: _twin.append(type('Twin', (Unknown, g.Group), {}))
    out = []
    for l in labels:
        with jax.ensure_compile_time_eval():
            G = _twin[0].__new__(_twin[0])
            G.label = l
            a = np.zeros((1, d, d)); a[0, 0, -1] = 1.; a[0, -1, 0] = .5
            G.lie_algebra, G.is_orthogonal, G.is_permutation = a, False, False
            g.Group.__init__(G)
        out.append(G)
    return out


def implies(ctx, name, equal, needed, what):
    """on every path on which the objects compare equal, `needed` holds"""
    count = 0
    for p, r in explore(lambda: bool(equal()), []):
        count += 1
        if r:
            p.solver.push()
            p.solver.add(z3.Not(needed))
            v = smt.check(p.solver)
            p.solver.pop()
            if v == 'unknown': raise CheckError('solver returned unknown')
            if v == 'sat': return ctx.violation(name, what)
    ctx.done(name, '%d paths' % count)


def eqs(*ls): return z3.And(*[z3.Bool('eq_' + ''.join(sorted(l))) for l in ls])


def product(ctx, name):
    from emlp import groups as g
    A, B, C, D = twins('abcd')
    with jax.ensure_compile_time_eval(): P, Q, R = A * B, C * D, A * D
    implies(ctx, name, lambda: P == Q, eqs('ac', 'bd'), 'direct products compare equal though their factors do not (e.g. two groups of the same name)')
    implies(ctx, name, lambda: P == R, eqs('bd'), 'direct products compare equal though their second factors do not')
    with jax.ensure_compile_time_eval():
        if hash(P) != hash(A * B) or not P == A * B: ctx.violation(name, 'a direct product built twice is not equal to itself')


def embedding(ctx, name, a, b):
    from emlp import groups as g
    A, B = twins('ab')
    with jax.ensure_compile_time_eval():
        P, Q, P2 = ctx.real(g.Embed, A, *a), ctx.real(g.Embed, B, *b), ctx.real(g.Embed, A, *a)
    same_place = a[0] == b[0] and list(range(a[0]))[a[1]] == list(range(b[0]))[b[1]]
    implies(ctx, name, lambda: P == Q, eqs('ab') if same_place else z3.BoolVal(False), 'embeddings compare equal though the embedded groups or their places differ')
    if not P == P2 or hash(P) != hash(P2): ctx.violation(name, 'an embedding built twice is not equal to itself')


def concrete(ctx, name, gs):
    objs = []
    for q in gs.values():
        try: objs.append((q, q.make(), q.make()))
        except Exception: continue          # C10
    for q, G, H in objs:
        if not G == H or hash(G) != hash(H) or G != H: return ctx.violation(name, '%s built twice compares unequal or has two hashes' % q.name)
    for (q, G, _), (r, H, _) in itertools.combinations(objs, 2):
        e = G == H
        if e != (H == G) or e == (G != H): return ctx.violation(name, 'equality of %s and %s is not symmetric' % (q.name, r.name))
        if e and hash(G) != hash(H): return ctx.violation(name, '%s and %s compare equal with different hashes' % (q.name, r.name))
        if e and not same(gens(G), gens(H)): return ctx.violation(name, '%s and %s compare equal with different generators' % (q.name, r.name))
        if (e or H == None): return ctx.violation(name, '%s compares equal to %s' % (q.name, r.name if e else None))
    ctx.done(name, '%d groups' % len(objs))


def expressions():
    v, w, s = X.V('a'), X.V('b'), X.Sc
    d = X.D(v)
    return [v, d, X.pw(v, 2), X.times(v, d), X.plus(v, s), X.plus(s, v), X.n(2, v), X.plus(v, d), X.plus(d, v), X.plus(X.times(v, d), X.n(2, v)), X.times(d, v), X.plus(X.pw(v, 2), v, v), X.D(X.pw(v, 2)), s, X.n(2, s), X.pw(v, 3), X.plus(v, X.pw(v, 2), d)]


def shapes(ctx):
    """the same expression over two groups that print and hash alike: equal only if the groups are"""
    two = [lambda x, y: x + y, lambda x, y: y + x, lambda x, y: x * y, lambda x, y: x * y.T, lambda x, y: x * y + x, lambda x, y: y * x * y, lambda x, y: 2 * x + y * y.T]
    for i, e in enumerate(expressions()):
        name = 'one group/%s' % X.show(e)
        def go(e=e, name=name):
            A, B, A2 = twins('aba')
            mk = lambda G: X.build(e, {'a': X.GDef('a', lambda: G, 2, False)})
            P, Q, P2 = ctx.real(mk, A), ctx.real(mk, B), ctx.real(mk, A2)
            implies(ctx, name, lambda: P == Q, eqs('ab') if X.gnames(e) and not only_scalars(e) else z3.BoolVal(True), 'representations compare equal though their groups do not')
            if not P == P2 or hash(P) != hash(P2): ctx.violation(name, 'a representation built twice is not equal to itself or has two hashes')
        ctx.obligation(name, go)
    from emlp.reps import V
    for i, f in enumerate(two):
        name = 'two groups/%d' % i
        def go(f=f, name=name):
            A, B, C, D, A2, B2 = distinct()
            mk = lambda G, H: ctx.real(f, V(G), V(H))
            P, Q, R, P2 = mk(A, B), mk(C, D), mk(A, D), mk(A2, B2)
            implies(ctx, name, lambda: P == R, eqs('bd'), 'representations of several groups compare equal though one of their groups does not')
            implies(ctx, name, lambda: P == Q, eqs('ac', 'bd'), 'representations of several groups compare equal though their groups do not')
            if not P == P2 or hash(P) != hash(P2): ctx.violation(name, 'a representation built twice is not equal to itself or has two hashes')
        ctx.obligation(name, go)


def only_scalars(e): return not X.gnames(e)


def distinct():
    """two kinds of groups (a, c alike; b, d alike; a and b never equal, so that products keep them apart)"""
    A, B, C, D, A2, B2 = twins('abcdab')
    kind = dict(a=0, c=0, b=1, d=1)
    cls = _twin[0]
    class Kind(cls):
        def __hash__(self): return 5 + kind[self.label]
        def __repr__(self): return 'Twin%d' % kind[self.label]
        def __eq__(self, o):
            if isinstance(o, Unknown) and kind[o.label] != kind[self.label]: return False
            return Unknown.__eq__(self, o)
    for G in (A, B, C, D, A2, B2): G.__class__ = Kind
    return A, B, C, D, A2, B2


def pairs(ctx, gs):
    """representations that compare equal act alike, for every matrix"""
    per = {}
    for name, e, o in X.family(gs, ctx.thorough, 24, ctx.seed, 60 if ctx.thorough else 20):
        per.setdefault((tuple(sorted(X.gnames(e))), o), []).append(e)
    for (names, o), es in per.items():
        es = list({X.show(e): e for e in es}.values())
        if names: es += [X.plus(es[0], X.Sc), X.plus(X.Sc, es[0])]
        for g in names:
            v, d = X.V(g), gs[g].d
            es += [X.plus(X.n(1 + d, v), X.pw(v, 2)), X.plus(v, X.n(2, X.pw(v, 2))), X.plus(X.n(1 + d, X.Sc), v), X.plus(X.Sc, X.n(2, v))] if d < 4 else []
        name = 'pairs/%s%s' % ('x'.join(names), '/order %s' % '<'.join(o) if o else '')
        if ctx.mine(name): alike(ctx, name, names, o, es, gs)


def alike(ctx, name, names, o, es, gs):
    built = []
    for e in es:
        try:
            with X.ordered(o, gs): built.append((e, X.build(e, gs)))
        except Exception: continue             # C01
    eq = []
    def go():
        if not built: raise CheckError('no representation could be built')
        for (e, R), (f, Q) in itertools.combinations(built, 2):
            try: r = bool(R == Q), bool(Q == R), bool(R != Q)
            except Exception as ex: return ctx.violation(name, 'comparing %s and %s raises %s' % (X.show(e), X.show(f), ex))
            if r[0] != r[1] or r[0] == r[2]: return ctx.violation(name, 'equality of %s and %s is not symmetric' % (X.show(e), X.show(f)))
            if r[0]:
                try: h = hash(R), hash(Q)
                except TypeError: h = 0, 0
                if h[0] != h[1]: return ctx.violation(name, '%s and %s compare equal with different hashes' % (X.show(e), X.show(f)))
                if R.size() != Q.size(): return ctx.violation(name, '%s and %s compare equal with different sizes' % (X.show(e), X.show(f)))
                if X.show(e) != X.show(f): eq.append((e, R, f, Q))
        ctx.done(name, '%d representations, %d equal pairs' % (len(built), len(eq)))
    ctx.obligation_mine(name, go)
    if not names or not built: return
    args = [GL('M_' + g, gs[g].d) for g in names]
    for e, R, f, Q in eq[:12]:
        def act(*Ms, e=e, f=f, R=R, Q=Q):
            d = dict(zip(names, Ms))
            v = jnp.eye(R.size())
            el = X.element(X.plus(e, f), gs, d)
            ds = [R.rho(el) @ v if hasattr(R.rho(el), '__matmul__') else R.rho(el), Q.rho(el) @ v]
            return [ds[0]], [ds[1]]
        ctx._guard('%s: %s = %s' % (name, X.show(e), X.show(f)), act, args)
