"""C19: dataset targets are equivariant functions of the features; statistics keep the symmetry; test-time scrambling stays in the orbit."""
import itertools
import numpy as np
import z3
from symx.core import CheckError
from symx import poly, smt, exprs as X
from symx.poly import as_poly, Poly
from symx.numpyx import draws
SHARDS = {'quick': 8, 'thorough': 8}


def run(ctx):
    ctx.encodes('Inertia', 'O5Synthetic', 'ParticleInteraction', 'InvertedCube', 'BrokenRubiksCube')
    ctx.assume('exact real arithmetic; transcendental functions uninterpreted, with their derivatives (chain rule) and sqrt(x)^2 = x')
    ctx.bound('N = 1-3 samples with every draw symbolic; Inertia with k = 1-5 particles; all generators of the declared group')
    from emlp import datasets as D
    sets = [('Inertia(%d)' % k, lambda n, k=k: D.Inertia(n, k)) for k in ((1, 2, 3, 5) if not ctx.thorough else (1, 2, 3, 4, 5, 6))]
    sets += [('Inertia', lambda n: D.Inertia(n)), ('O5Synthetic', lambda n: D.O5Synthetic(n)), ('ParticleInteraction', lambda n: D.ParticleInteraction(n))]
    for name, make in sets:
        for N in (1, 2, 3) if ctx.thorough else (1, 2):
            ctx.obligation('%s/%d samples/target' % (name, N), lambda name=name, make=make, N=N: target(ctx, '%s/%d samples/target' % (name, N), make, N))
            ctx.obligation('%s/%d samples/statistics' % (name, N), lambda name=name, make=make, N=N: statistics(ctx, '%s/%d samples/statistics' % (name, N), make, N))
    for cls, rows in (('InvertedCube', 6), ('BrokenRubiksCube', 6)):
        ctx.obligation(cls + '/scrambling', lambda cls=cls: scrambled(ctx, getattr(D, cls)))
        ctx.obligation(cls + '/labels', lambda cls=cls: labels(ctx, getattr(D, cls)))


def build(ctx, make, N):
    made = []
    def fresh(shape):
        made.append(poly.store().array('r%d' % len(made), shape))
        return made[-1]
    with draws(fresh): ds = ctx.real(make, N)
    if not made: raise CheckError('the features are not drawn from numpy\'s normal generator')
    return ds


def reps(ctx, ds):
    G = ds.symmetry
    rin, rout = ctx.real(ds.rep_in, G), ctx.real(ds.rep_out, G)
    gens = [('algebra', np.asarray(rin.drho_dense(A)).astype(float), np.asarray(rout.drho_dense(A)).astype(float)) for A in G.lie_algebra]
    gens += [('discrete', np.asarray(rin.rho_dense(h)).astype(float), np.asarray(rout.rho_dense(h)).astype(float)) for h in G.discrete_generators]
    return rin, rout, gens


def variables(arr, moved):
    """{draw: what it becomes} such that the features become `moved`"""
    sub = {}
    for x, m in zip(arr.reshape(-1), moved.reshape(-1)):
        x = as_poly(x)
        if len(x.t) != 1: continue
        (mono, c), = x.t.items()
        if len(mono) != 1 or mono[0] in poly.store().atom_def: continue
        sub.setdefault(mono[0], as_poly(m) * (1 / c))
    return sub


def target(ctx, name, make, N):
    ds = build(ctx, make, N)
    xs, ys = np.asarray(ds.X), np.asarray(ds.Y)
    rin, rout, gens = reps(ctx, ds)
    if xs.shape != (N, rin.size()) or ys.shape != (N, rout.size()):
        return ctx.violation(name, 'features %s and targets %s do not fit representations of size %d and %d' % (xs.shape, ys.shape, rin.size(), rout.size()))
    if not gens: return ctx.violation(name, 'the declared group has no generators')
    items = [ctx.real(ds.__getitem__, i) for i in range(N)]
    pairs = [('item%d' % i, as_poly(p), as_poly(q)) for i, (a, b) in enumerate(items) for p, q in list(zip(a, xs[i])) + list(zip(b, ys[i]))]
    if ctx.real(len, ds) != N: return ctx.violation(name, 'len is %d for %d samples' % (len(ds), N))
    n = 0
    for kind, a, b in gens:
        moved = np.array([[sum((as_poly(x[j]) * float(a[i, j]) for j in range(len(x)) if abs(a[i, j]) > 1e-9), poly.ZERO) for i in range(len(x))] for x in xs])
        want = np.array([[sum((as_poly(y[j]) * float(b[i, j]) for j in range(len(y)) if abs(b[i, j]) > 1e-9), poly.ZERO) for i in range(len(y))] for y in ys])
        sub = variables(xs, moved)
        memo = {}
        go = (lambda p: poly.derivative(p, sub, memo)) if kind == 'algebra' else (lambda p: poly.substitute(p, sub, memo))
        for r in range(N):
            pairs += [('%s%d/features' % (kind, n), go(p), q) for p, q in zip(xs[r], moved[r])]
            pairs += [('%s%d/target' % (kind, n), go(p), q) for p, q in zip(ys[r], want[r])]
        n += 1
    settle(ctx, name, pairs, lambda rng: gap(make, N, rng), '%d generators' % len(gens))


def gap(make, N, rng):
    """how far the real target is from equivariance on one draw"""
    import scipy.linalg
    raws = []
    def first(shape):
        raws.append(rng.standard_normal(shape))
        return raws[-1].copy()
    with draws(first): ds = make(N)
    G = ds.symmetry
    rin, rout = ds.rep_in(G), ds.rep_out(G)
    worst = 0
    hs = [scipy.linalg.expm(.7 * np.asarray(A.to_dense() if hasattr(A, 'to_dense') else A, float)) for A in G.lie_algebra] + [np.asarray(h.to_dense() if hasattr(h, 'to_dense') else h, float) for h in G.discrete_generators]
    for h in hs:
        a, b = np.asarray(rin.rho_dense(h), float), np.asarray(rout.rho_dense(h), float)
        # draws which reappear in the features (up to a factor) move with them
        k = [0]
        def second(shape):
            r = raws[k[0]]; k[0] += 1
            r, m = r.copy().reshape(N, -1), ds.X @ a.T
            for i in range(r.shape[1]):
                for j in range(ds.X.shape[1]):
                    q = ds.X[:, j] / r[:, i]
                    if np.all(np.abs(q - q[0]) < 1e-9) and (N > 1 or abs(q[0] * 4 - round(q[0] * 4)) < 1e-9):
                        r[:, i] = m[:, j] / q[0]; break
            return r.reshape(shape)
        with draws(second): other = make(N)
        worst = max(worst, np.abs(other.Y - ds.Y @ b.T).max() / (1 + np.abs(ds.Y).max()), np.abs(other.X - ds.X @ a.T).max())
    return worst


def settle(ctx, name, pairs, run_gap, sample):
    verdict, failing = smt.decide(pairs, eps=1e-3, box=lambda v: (-1.0, 1.0) if v not in poly.store().atom_def else None)
    if verdict == 'unsat': return ctx.done(name, '%d entries, %s' % (len(pairs), sample))
    g = max(run_gap(ctx.rng(name + str(i))) for i in range(3))
    if g > 1e-3: return ctx.violation(name, 'not equivariant: %s fails, off by %.3g on a concrete draw' % (failing[0][0] if failing else '?', g))
    raise CheckError('solver says %s for %s: %r vs %r, not reproduced (%.2g)' % (verdict, *(failing[0] if failing else ('?', '', '')), g))


def statistics(ctx, name, make, N):
    ds = build(ctx, make, N)
    rin, rout, gens = reps(ctx, ds)
    st = ds.stats
    if len(st) not in (2, 4): return ctx.violation(name, 'stats has %d entries' % len(st))
    pairs = []
    for k, rep, which in ((0, rin, 1), (2, rout, 2))[:len(st) // 2]:
        n = rep.size()
        mu = np.array([as_poly(0)] * n) + np.asarray(st[k]).reshape(-1)
        s = np.array([as_poly(0)] * n) + np.asarray(st[k + 1]).reshape(-1)
        for gi, g in enumerate(gens):
            a = g[which]
            for i in range(n):
                tot = sum((as_poly(mu[j]) * float(a[i, j]) for j in range(n)), poly.ZERO)
                pairs.append(('mean %d generator %d' % (k, gi), tot, as_poly(mu[i]) if g[0] == 'discrete' else poly.ZERO))
                pairs += [('scale %d generator %d' % (k, gi), as_poly(s[i]) * float(a[i, j]), as_poly(s[j]) * float(a[i, j])) for j in range(n) if i != j and abs(a[i, j]) > 1e-9]
    def run_gap(rng):
        with draws(lambda shape: rng.standard_normal(shape)): d = make(max(N, 2))
        w = 0
        for k, rep, which in ((0, rin, 1), (2, rout, 2))[:len(d.stats) // 2]:
            n = rep.size()
            mu, s = np.zeros(n) + np.asarray(d.stats[k]), np.zeros(n) + np.asarray(d.stats[k + 1])
            for g in gens:
                a = g[which]
                w = max(w, np.abs(a @ mu - (mu if g[0] == 'discrete' else 0)).max(), np.abs(a * s[None] - s[:, None] * a).max())
        return w
    settle(ctx, name, pairs, run_gap, 'statistics of size %d' % len(st))


# ---- datasets scrambled by the group -----------------------------------------------------
def scrambled(ctx, cls):
    from emlp.groups import Group
    train = ctx.real(cls, True)
    d = train.symmetry.d
    used = []
    def sample(n):
        out = np.empty((n, d, d), object)
        for k in range(n):
            used.append(poly.store().array('g%d' % len(used), (d, d)))
            out[k] = used[-1]
        return out
    old = Group.samples, Group.sample
    Group.samples, Group.sample = lambda self, N, seed=None: sample(N), lambda self: sample(1)[0]
    try: test = ctx.real(cls, False)
    finally: Group.samples, Group.sample = old
    if not used: raise CheckError('the test set is not scrambled by samples of the group')
    owner = {next(iter(p.t))[0]: k for k, g in enumerate(used) for p in g.reshape(-1)}
    m = train.X.shape[1] // d
    rows = len(test.X)
    if test.X.shape[1] != m * d or len(test.Y) != rows: return ctx.violation(cls.__name__ + '/scrambling', 'shapes %s %s' % (test.X.shape, test.Y.shape))
    pairs, seen = [], []
    for i in range(rows):
        x = np.asarray(test.X[i]).reshape(m, d)
        ks = {owner.get(v) for p in x.reshape(-1) for v in as_poly(p).vars()}
        if len(ks) != 1 or None in ks: return ctx.violation(cls.__name__ + '/scrambling', 'row %d of the test set is moved by %d group elements' % (i, len(ks)))
        g = used[ks.pop()]
        good = None
        cands = {}
        for t in range(len(train.X)):
            if train.Y[t] == test.Y[i]: cands.setdefault(train.X[t].tobytes(), train.X[t].reshape(m, d))
        for c in cands.values():
            for act in (lambda: c @ g, lambda: c @ g.T):
                if good is not None: break
                act = act()
                q = [('row%d' % i, as_poly(a), as_poly(b)) for a, b in zip(x.reshape(-1), act.reshape(-1))]
                if all((a - b).t == {} for _, a, b in q): good = q
        if good is None: return ctx.violation(cls.__name__ + '/scrambling', 'row %d of the test set (label %s) is not a training example of that label moved by a group element' % (i, test.Y[i]))
        pairs += good if i < 4 else good[:4]
    for y in set(train.Y.tolist()):
        if not (test.Y == y).any(): return ctx.violation(cls.__name__ + '/scrambling', 'no test example has label %s' % y)
    verdict, failing = smt.decide(pairs)
    if verdict != 'unsat': raise CheckError('solver: %s' % verdict)
    ctx.done('%s/scrambling' % cls.__name__, '%d rows' % rows)


def perm_of(h):
    h = np.asarray(h.to_dense() if hasattr(h, 'to_dense') else h)
    if not np.all((np.abs(h) < 1e-6) | (np.abs(h - 1) < 1e-6)) or not np.all(h.sum(0) == 1): return None
    return h.argmax(1)


def blocks(perms, n):
    """pieces: the smallest block systems of a permutation group, coordinate by coordinate (union-find closure)"""
    best = {}
    for a in range(n):
        for b in range(n):
            if a == b: continue
            par = list(range(n))
            def find(i):
                while par[i] != i: i = par[i]
                return i
            todo = [(a, b)]
            par[find(b)] = find(a)
            while todo:
                i, j = todo.pop()
                for p in perms:
                    u, v = find(p[i]), find(p[j])
                    if u != v:
                        par[u] = v
                        todo.append((p[i], p[j]))
            cls = frozenset(i for i in range(n) if find(i) == find(a))
            if a not in best or len(cls) < len(best[a]): best[a] = cls
    return best


def labels(ctx, cls):
    """no state reachable by the group from an example of one label is an example of another label"""
    train = ctx.real(cls, True)
    d = train.symmetry.d
    perms = [perm_of(h) for h in train.symmetry.discrete_generators]
    if any(p is None for p in perms): raise CheckError('the generators are not permutations')
    m = train.X.shape[1] // d
    uniq = {}
    for x, y in zip(train.X, train.Y): uniq.setdefault((x.tobytes(), float(y)), (x.reshape(m, d), y))
    bl = blocks(perms, d)
    for (x, y), (u, w) in itertools.combinations(uniq.values(), 2):
        if y == w: continue
        # unknown permutation s with u[:, s_i] = x[:, i], respecting blocks and the sets of images of ordered pairs within a block
        s = [z3.Int('s%d' % i) for i in range(d)]
        so = z3.Solver()
        so.add(z3.Distinct(*s))
        for i in range(d):
            so.add(z3.Or([s[i] == j for j in range(d) if (u[:, j] == x[:, i]).all()]))
        orbits = {}
        for i in range(d):
            if len(bl[i]) > 6: continue
            for j in bl[i]:
                if j == i or (i, j) in orbits: continue
                orb, todo = {(i, j)}, [(i, j)]
                while todo:
                    a, b = todo.pop()
                    for p in perms:
                        q = (int(p[a]), int(p[b]))
                        if q not in orb: orb.add(q); todo.append(q)
                for q in orb: orbits[q] = orb
        for (i, j), orb in orbits.items(): so.add(z3.Or([z3.And(s[i] == a, s[j] == b) for a, b in orb]))
        tried = 0
        from sympy.combinatorics import Permutation, PermutationGroup
        GG = PermutationGroup([Permutation([int(v) for v in p]) for p in perms])
        while True:
            r = smt.check(so, 60000)
            if r == 'unsat': break
            if r != 'sat' or tried > 200: raise CheckError('solver: %s after %d candidates' % (r, tried))
            mo = so.model()
            val = [mo[t].as_long() for t in s]
            if GG.contains(Permutation(val)):
                return ctx.violation(cls.__name__ + '/labels', 'an example labelled %s is carried to one labelled %s by the group element %s' % (w, y, val), values={'permutation': val})
            so.add(z3.Or([t != v for t, v in zip(s, val)]))
            tried += 1
    ctx.done(cls.__name__ + '/labels', 'no group element identifies examples of different labels')
