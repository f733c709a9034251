"""C13: automatic channel allocation has exactly the requested size, whatever the channel count and the draws."""
import contextlib
import numpy as np
import z3
from symx import smt, exprs as X
from symx.core import CheckError, RealRaise, TimeLimit
from symx.pathint import SymInt, SymBool, Path, explore, ex
SHARDS = {'quick': 8, 'thorough': 8}


class Ab:
    """a representation reduced to its tensors: {(p, q): symbolic count}"""
    def __init__(self, c): self.c = c
    def __mul__(self, k): return Ab({r: n * k for r, n in self.c.items()})
    __rmul__ = __mul__
    def __add__(self, o):
        if not isinstance(o, Ab): return self if isinstance(o, int) and o == 0 else NotImplemented
        out = dict(self.c)
        for r, n in o.c.items(): out[r] = out[r] + n if r in out else n
        return Ab(out)
    __radd__ = __add__
    def canonicalize(self): return self, None
    def size(self, d): return sum((n * d ** (p + q) for (p, q), n in self.c.items()), 0)


@contextlib.contextmanager
def patched(mod, T=None, binomial=None):
    old, ob = mod.T, np.random.binomial
    if T is not None: mod.T = T
    if binomial is not None: np.random.binomial = binomial
    try: yield
    finally: mod.T, np.random.binomial = old, ob


class G:
    def __init__(self, d): self.d = d


def guarded(paths, again, values):
    """an exception of the code on a symbolic count only counts when it also happens on a concrete one"""
    try: yield from paths
    except Exception as e:
        if isinstance(e, CheckError) and 'come to an end' not in str(e): raise
        for v in values:
            try:
                with TimeLimit(20, 'does not terminate'): bad = again(v)
            except Exception as e2: raise RealRaise('%s: %s for n=%d' % (type(e2).__name__, e2, v))
            if bad: raise RealRaise('(wrong result) for n=%d' % v)
        raise CheckError('the code cannot run on a symbolic count: %s: %s' % (type(e).__name__, e))


def run(ctx):
    import emlp.nn.objax as ob
    gs = X.groups()
    ctx.encodes('lambertW', 'uniform_rep', 'binomial_allocation', 'T', 'SumRep.canonicalize')
    top = 1500 if ctx.thorough else 300
    big = 10 ** 6
    ctx.bound('all channel counts 1..%d and stretches of 15 up to a million (the rank bound and the allocation of one rank: all counts up to %d), group dimensions 2..6; all random draws for one rank <= 3 (2 for dimension >= 4), ranks <= 6 (thorough 7) with extreme and mixed draws, extreme and mixed draws for whole allocations' % (top, big))
    abT = lambda p, q=0, g=None: Ab({(p, q): 1})
    n = z3.Int('n')
    for d in range(2, 8):
        name = 'lambertW/d=%d' % d
        ctx.obligation(name, lambda: smaller(lambda b: lam(ctx, name, ob, d, n, b), big))
        for rank in range((5 if ctx.thorough else 4) if d < 4 else 3):
            name = 'one rank/d=%d rank=%d' % (d, rank)
            ctx.obligation(name, lambda: smaller(lambda b: alloc(ctx, name, ob, d, rank, n, b, abT), big))
        for rank in range(4 if d < 4 else 3, 8 if ctx.thorough else 7):
            for draw in ('zero', 'all', 'mixed'):
                name = 'one rank/d=%d rank=%d draws %s' % (d, rank, draw)
                ctx.obligation(name, lambda: smaller(lambda b: alloc(ctx, name, ob, d, rank, n, b, abT, draw), big))
    for d in range(2, 7):
        for lo in [*range(1, top + 1, 15), *[k for k in (1000, 4090, 10000, 65530, 10 ** 6) if k > top]]:
            for draw in ('zero', 'all', 'mixed'):
                name = 'uniform_rep/d=%d ch=%d..%d draws %s' % (d, lo, lo + 14, draw)
                ctx.obligation(name, lambda: whole(ctx, name, ob, d, lo, lo + 14, n, abT, draw))
    for g in ('SO2', 'SL2', 'S3', 'SO13p', 'Sp2', 'SL2xS2', 'D3eR3', 'U2'):
        name = 'real/%s' % g
        ctx.obligation(name, lambda: real(ctx, name, ob, gs[g], n, 14 if not ctx.thorough else 40))


def smaller(f, big):
    """code which needs the concrete count is explored for fewer counts"""
    try: return f(big)
    except CheckError as e:
        if 'too many' not in str(e): raise
        return f(200)


def lam(ctx, name, ob, d, n, big):
    paths = 0
    again = lambda v: not holds(ob.lambertW(v, d), v, d)
    for p, r in guarded(explore(lambda: ob.lambertW(SymInt(n), d), [n >= 1, n <= big]), again, range(1, 100)):
        paths += 1
        r = ex(r)
        # the largest r with (r+1) d^r <= n
        bad = z3.Or(r < 0, (r + 1) * d ** r > n, (r + 2) * d ** (r + 1) <= n) if isinstance(r, int) and r >= 0 else z3.BoolVal(True)
        if p.sat(bad): return report(ctx, name, p, bad, n, 'lambertW(n, %d) = %s is not the largest rank that fits' % (d, r), again)
    ctx.done(name, '%d paths' % paths)


def holds(r, v, d): return r >= 0 and (r + 1) * d ** r <= v < (r + 2) * d ** (r + 1)


def report(ctx, name, p, bad, n, msg, again):
    p.solver.add(bad)
    smt.check(p.solver)
    v = p.solver.model().eval(n, model_completion=True).as_long()
    try: rep = again(v)
    except Exception as e: rep = True; msg += ' (raises %s)' % e
    if not rep: raise CheckError('counterexample n=%d did not reproduce: %s' % (v, msg))
    ctx.violation(name, '%s for n=%d' % (msg, v), dict(n=v))


def alloc(ctx, name, ob, d, rank, n, big, abT, fixed=None):
    """all counts up to `big`, all draws (or a fixed sequence of draws): N tensors of the rank, the binomial part evenly split"""
    from scipy.special import binom
    paths = 0
    def draws(r, pr, size):
        k = int(size)
        paths_p = [z3.Int('p%d' % i) for i in range(k)]
        Path.cur.solver.add(*[z3.And(q >= 0, q <= r) for q in paths_p], *[a <= b for a, b in zip(paths_p, paths_p[1:])])    # the order of the draws is irrelevant: sums commute
        return [SymInt(q) for q in paths_p]
    def f():
        with patched(ob, abT, drawer(fixed) if fixed else draws): return ob.binomial_allocation(SymInt(n), rank, G(d))
    def again(v): return any(again1(v, k) for k in ('zero', 'all', 'mixed', None))
    def again1(v, draw):
        np.random.seed(0)
        with patched(ob, abT, draw and drawer(draw)): out = ob.binomial_allocation(v, rank, G(d))
        return not ((isinstance(out, int) and out == v == 0) or (sum(out.c.values()) == v and all(a + b == rank and a >= 0 and b >= 0 for (a, b), c in out.c.items() if c)
                    and all(out.c.get((k, rank - k), 0) >= (v // 2 ** rank) * int(binom(rank, k)) for k in range(rank + 1))))
    for p, r in guarded(explore(f, [n >= 0, n <= big], 200000), again, range(0, 40)):
        paths += 1
        if isinstance(r, int) and r == 0: bad = n != 0
        elif not isinstance(r, Ab): return ctx.violation(name, 'returned %r' % (r,))
        else:
            tot = sum((ex(c) for c in r.c.values()), 0)
            even = [ex(r.c.get((k, rank - k), 0)) < ((n / 2 ** rank) * int(binom(rank, k))) for k in range(rank + 1)]
            bad = z3.Or(tot != n, *even, *[z3.And(ex(c) != 0, z3.BoolVal(a + b != rank or a < 0 or b < 0)) for (a, b), c in r.c.items()])
        if p.sat(bad):
            return report(ctx, name, p, bad, n, 'the allocation of n tensors of rank %d is wrong' % rank, again)
    ctx.done(name, '%d paths' % paths)


def drawer(kind):
    def f(r, pr, size):
        k = int(size)
        return np.array([0 if kind == 'zero' else r if kind == 'all' else (i * 7 + 3) % (r + 1) for i in range(k)], dtype=int)
    return f


def whole(ctx, name, ob, d, lo, hi, n, abT, draw):
    paths = 0
    def f():
        with patched(ob, abT, drawer(draw)): return ob.uniform_rep(SymInt(n), G(d))
    def again(v):
        with patched(ob, abT, drawer(draw)): return ob.uniform_rep(v, G(d)).size(d) != v
    for p, r in guarded(explore(f, [n >= lo, n <= hi]), again, range(lo, hi + 1)):
        paths += 1
        if not isinstance(r, Ab): return ctx.violation(name, 'returned %r' % (r,))
        bad = ex(r.size(d)) != n
        if p.sat(bad):
            return report(ctx, name, p, bad, n, 'the representation has size %s' % r.size(d), again)
    ctx.done(name, '%d paths' % paths)


def real(ctx, name, ob, gd, n, top):
    """with the real tensors and random draws: size, group and canonical order"""
    from emlp.reps.product_sum_reps import SumRep
    from emlp.reps import Scalar
    g, paths = gd.G, 0
    np.random.seed(ctx.seed)
    def f():
        return ob.uniform_rep(SymInt(n), g)
    again = lambda v: ob.uniform_rep(v, g).size() != v
    for p, r in guarded(explore(f, [n >= 1, n <= top]), again, range(1, top + 1)):
        paths += 1
        bad = z3.IntVal(int(r.size())) != n
        if p.sat(bad): return report(ctx, name, p, bad, n, 'the representation has size %d' % r.size(), again)
        if isinstance(r, SumRep):
            if not (np.asarray(r.perm) == np.arange(r.size())).all(): return ctx.violation(name, 'not in canonical order: %s' % r)
            for q in r.reps:
                if not (q == Scalar or q.G == g): return ctx.violation(name, '%s is not a tensor of the group' % q)
    ctx.done(name, '%d paths' % paths)
