"""C11: a group is only treated as orthogonal / as a permutation group when its generators are, and always when they are exactly."""
import contextlib, itertools
import numpy as np
import jax
import jax.numpy as jnp
import z3
from symx import exprs as X, lra, smt, poly, jx
from symx.core import Free, CheckError
from symx.poly import as_poly
SHARDS = {'quick': 8, 'thorough': 8}
BOX = 4.0


class Fork:
    """truth value of a symbolic condition: follow the scripted decision and record the condition"""
    def __init__(self, script): self.script, self.conds = list(script), []

    def __call__(self, tracer):
        k = len(self.conds)
        d = self.script[k] if k < len(self.script) else True
        if k >= len(self.script): self.script.append(True)
        self.conds.append(jnp.asarray(tracer).astype(jnp.float32))
        return d


@contextlib.contextmanager
def forking(fork):
    from jax._src import core as jc
    old = jc.Tracer.__bool__
    jc.Tracer.__bool__ = lambda self: fork(self)
    try: yield fork
    finally: jc.Tracer.__bool__ = old


def paths(f, args):
    """every path of f: [(script, closed jaxpr of (conditions..., outputs...), number of conditions)]"""
    out, todo = [], [[]]
    while todo:
        script = todo.pop()
        cell = {}
        def g(*a):
            fork = Fork(script)
            with forking(fork): r = f(*a)
            cell['s'], cell['n'] = fork.script, len(fork.conds)
            return tuple(fork.conds) + tuple(r)
        cj = jax.make_jaxpr(g)(*[jax.ShapeDtypeStruct(a.shape, jnp.float32) for a in args])
        s = cell['s'][:cell['n']]
        out.append((s, cj, cell['n']))
        for k in range(len(script), len(s)): todo.append(s[:k] + [False])
        if len(out) > 64: raise CheckError('too many paths')
    return out


def run(ctx):
    from emlp.groups import Group
    from emlp.reps import V
    gs = X.groups()
    ctx.encodes('Group.__init__', 'rel_err', 'Rep.T', 'Base.T')
    ctx.bound('user groups with up to two 2x2 or one 3x3 generators of each kind (thorough: two 3x3), entries in [-%g,%g]; all library groups of the table' % (BOX, BOX))
    ctx.assume('real arithmetic instead of float32 inside the detection')

    class User(Group):
        def __init__(self, A, h):
            if A is not None: self.lie_algebra = A
            if h is not None: self.discrete_generators = h
            super().__init__()

    cases = [(1, 0, 2), (0, 1, 2), (1, 1, 2), (0, 2, 2), (2, 0, 2), (1, 0, 3), (0, 1, 3), (0, 1, 1), (1, 0, 1)]
    if ctx.thorough: cases += [(2, 0, 3), (2, 1, 2), (1, 2, 2), (1, 0, 4), (3, 0, 2)]
    for nA, nh, d in cases:
        for goal in ('orthogonal only if', 'orthogonal if', 'permutation only if', 'permutation if', 'permutation implies orthogonal'):
            if goal == 'permutation if' and nA: continue
            if not ctx.thorough and d == 3 and (nA, goal) in ((1, 'orthogonal only if'), (0, 'orthogonal if')): continue     # 45 s each
            name = 'user %d+%d generators %dx%d/%s' % (nA, nh, d, d, goal)
            ctx.obligation(name, lambda: user(ctx, name, User, nA, nh, d, goal))
    ctx.obligation('user nilpotent', lambda: lists(ctx, 'user nilpotent', User, [np.array([[0., 1], [0, 0]])], None, False, False))
    for nm, d in gs.items():
        ctx.obligation('library/' + nm, lambda: library(ctx, 'library/' + nm, d))
    if ctx.mine('vacuity'):
        poly.reset()
        if decide(ctx, User, 0, 1, 2, 'vacuous')[0] != 'sat': ctx.error('vacuity', 'no orthogonal group found')
        else: ctx.witness += 1


def user(ctx, name, User, nA, nh, d, goal):
    if ctx.values is not None:
        A, h = [np.array(ctx.values[k]) if ctx.values.get(k) is not None else None for k in ('A', 'h')]
        return replay(ctx, name, User, A, h, goal)
    r, A, h = decide(ctx, User, nA, nh, d, goal)
    if r == 'unsat': return ctx.done(name, 'no generators with entries in the box')
    if r == 'unknown': raise CheckError('solver returned unknown')
    if replay(ctx, name, User, A, h, goal): return
    raise CheckError('counterexample did not reproduce: %s %s' % (A, h))


def replay(ctx, name, User, A, h, goal):
    G = ctx.real(lambda: User(A, h))
    iso, isp = bool(G.is_orthogonal), bool(G.is_permutation)
    As = [] if A is None else list(A)
    hs = [] if h is None else list(h)
    oerr = max([np.abs(a + a.T).max() for a in As] + [np.abs(q.T @ q - np.eye(len(q))).max() for q in hs] + [0])
    perm = not As and all(sorted(map(tuple, np.round(q, 6))) == sorted(map(tuple, np.eye(len(q)))) for q in hs)
    bad = (goal == 'orthogonal only if' and iso and oerr > 5e-4) or (goal == 'orthogonal if' and oerr < 1e-7 and not iso) or \
          (goal == 'permutation only if' and isp and (As or any(np.abs(np.sort(np.abs(q), 1)[:, :-1]).max(initial=0) > 5e-3 or np.abs(np.sort(q, 1)[:, -1] - 1).max() > 5e-3 for q in hs))) or \
          (goal == 'permutation if' and perm and not isp) or (goal == 'permutation implies orthogonal' and isp and not iso)
    if bad: ctx.violation(name, 'is_orthogonal=%s is_permutation=%s for A=%s h=%s' % (iso, isp, [a.tolist() for a in As], [q.tolist() for q in hs]),
                          dict(A=None if A is None else np.asarray(A).tolist(), h=None if h is None else np.asarray(h).tolist()))
    return bad


def decide(ctx, User, nA, nh, d, goal):
    args = ([Free('A', nA, d, d, box=BOX)] if nA else []) + ([Free('h', nh, d, d, box=BOX)] if nh else [])
    def f(*a):
        G = User(a[0] if nA else None, a[-1] if nh else None)
        return jnp.asarray(G.is_orthogonal).astype(jnp.float32), jnp.asarray(G.is_permutation if G.is_permutation is not None else False).astype(jnp.float32)
    verdict = 'unsat'
    for script, cj, n in paths(f, args):
        poly.reset()
        outs, arrs = ctx.symbolic(None, args, closed=cj)
        nl = smt.Nl()
        flat = [np.asarray(o, dtype=object).reshape(-1)[0] for o in outs]
        tr = [nl.term(as_poly(v)) for v in flat]
        conds = [(t != 0) if s else (t == 0) for t, s in zip(tr[:n], script)]
        iso, isp = tr[n] != 0, tr[n + 1] != 0
        Av = [[[nl.term(q) for q in r] for r in m] for m in (arrs[0] if nA else [])]
        hv = [[[nl.term(q) for q in r] for r in m] for m in (arrs[-1] if nh else [])]
        allv = [x for m in Av + hv for r in m for x in r]
        side = [z3.And(x >= -BOX, x <= BOX) for x in allv]
        R = range(d)
        skew = [(m[i][j] + m[j][i], 0) for m in Av for i in R for j in R]
        gram = [(z3.Sum([m[k][i] * m[k][j] for k in R]), 1 if i == j else 0) for m in hv for i in R for j in R]
        if goal == 'orthogonal only if': want = [iso, z3.Or(*[z3.Or(a - b > 1e-3, a - b < -1e-3) for a, b in skew + gram])]
        elif goal == 'orthogonal if': want = [a == b for a, b in skew + gram] + [z3.Not(iso)]
        elif goal == 'permutation only if':
            # one entry 1 and the others 0, in every row
            rowok = [z3.Or(*[z3.And(*[z3.And(m[i][j] - (1 if j == k else 0) < 1e-2, m[i][j] - (1 if j == k else 0) > -1e-2) for j in R]) for k in R]) for m in hv for i in R]
            want = [isp] + ([] if nA else [z3.Not(z3.And(*rowok))])
        elif goal == 'permutation if':
            want = [z3.Or(x == 0, x == 1) for x in allv] + [z3.Sum(*[m[i][j] for j in R]) == 1 for m in hv for i in R] + [z3.Sum(*[m[j][i] for j in R]) == 1 for m in hv for i in R] + [z3.Not(isp)]
        elif goal == 'permutation implies orthogonal': want = [isp, z3.Not(iso)]
        else: want = [iso]
        s = z3.Solver()
        s.add(*side, *conds, *want, *nl.side)
        # lemma-free linear facts about the abstraction (products of entries are bounded)
        r = smt.check(s, 300000 if ctx.thorough else 40000)
        if r == 'sat':
            m = s.model()
            num = lambda M: np.array([[[smt.val(m, x) for x in r] for r in q] for q in M]) if M else None
            return 'sat', num(Av), num(hv)
        if r == 'unknown': verdict = 'unknown'
    return verdict, None, None


def lists(ctx, name, User, A, h, iso, isp):
    G = ctx.real(lambda: User(np.array(A), h))
    if bool(G.is_orthogonal) != iso or bool(G.is_permutation) != isp: return ctx.violation(name, 'is_orthogonal=%s is_permutation=%s' % (G.is_orthogonal, G.is_permutation))
    ctx.done(name)


def library(ctx, name, d):
    """flags against the independent table, and what they claim holds for all combinations of the generators"""
    from checks.c10 import matrices
    G = ctx.real(d.make)
    iso, isp = bool(G.is_orthogonal), bool(G.is_permutation)
    if iso != d.orth: return ctx.violation(name, 'is_orthogonal=%s' % iso)
    if isp != d.perm: return ctx.violation(name, 'is_permutation=%s' % isp)
    A, h = matrices(ctx, G.lie_algebra, G.d), matrices(ctx, G.discrete_generators, G.d)
    if iso:
        for M in list(A): 
            if lra.moved(M + M.T, 1e-5) is not None: return ctx.violation(name, 'called orthogonal but a generator is not skew')
        for M in list(h):
            if lra.moved(M.T @ M - np.eye(len(M)), 1e-5) is not None: return ctx.violation(name, 'called orthogonal but a generator is not')
    if isp:
        for M in list(h):
            P = np.eye(len(M))[np.argmax(M, 1)]
            if lra.moved(M - P, 1e-6) is not None or len(set(np.argmax(M, 1))) != len(M): return ctx.violation(name, 'called a permutation group but a generator is not a permutation')
        if len(A): return ctx.violation(name, 'called a permutation group but has infinitesimal generators')
    ctx.done(name, 'orthogonal=%s permutation=%s' % (iso, isp))
