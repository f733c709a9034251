"""SMT queries (z3) over polynomial residuals, with statistics."""
import time
from fractions import Fraction
import z3
from . import poly
from .poly import Poly, as_poly

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0.0, entries=0, monomials=0)


def check(solver, timeout_ms=60000):
    solver.set('timeout', timeout_ms)
    t = time.time()
    r = solver.check()
    STATS['seconds'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return str(r)


def strings(solver, timeout_ms=20000):
    """decide a query over strings with cvc5 (z3 when it gives no answer)"""
    import subprocess
    t, r = time.time(), ''
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % timeout_ms, '-'], input='(set-logic ALL)\n' + solver.to_smt2(), capture_output=True, text=True, timeout=timeout_ms / 1000 + 10).stdout.split()
        r = r[0] if r else ''
    except Exception: pass
    if r not in ('sat', 'unsat'): return check(solver, timeout_ms)
    STATS['seconds'] += time.time() - t
    STATS['queries'] += 1
    STATS[r] += 1
    return r


def rat(c):
    f = Fraction(float(c))
    if f.denominator > 10 ** 12: f = Fraction(round(float(c) * 10 ** 12), 10 ** 12)
    n, d = f.numerator, f.denominator
    s = '%d.0' % abs(n) if d == 1 else '(/ %d.0 %d.0)' % (abs(n), d)
    return '(- %s)' % s if n < 0 else s


def linear(p, names):
    terms = []
    for m, c in p.t.items():
        if m == (): terms.append(rat(c))
        else: terms.append('(* %s %s)' % (rat(c), names[m]))
    if not terms: return '0.0'
    return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)


def split_complex(pairs):
    out = []
    for lab, a, b in pairs:
        a, b = as_poly(a), as_poly(b)
        if any(m and m[0] == 0 for m in a.t) or any(m and m[0] == 0 for m in b.t):
            out.append((lab + '.re', a.real, b.real)); out.append((lab + '.im', a.imag, b.imag))
        else: out.append((lab, a, b))
    return out


def bounds(m, box):
    lo = hi = 1.0
    i = 0
    m = list(m)
    for v in sorted(set(m)):
        k = m.count(v)
        b = box(v)
        if b is None: return None
        l, h = b
        if k % 2 == 0: l2, h2 = (0.0 if l <= 0 <= h else min(abs(l), abs(h)) ** k), max(abs(l), abs(h)) ** k
        else: l2, h2 = l ** k, h ** k
        c = (lo * l2, lo * h2, hi * l2, hi * h2)
        lo, hi = min(c), max(c)
    return lo, hi


def decide(pairs, eps=0.0, box=None, ideal=(), chunk=400, timeout_ms=60000):
    """Is there an assignment of the variables making |lhs - rhs| > eps for some pair?

    Every monomial is abstracted to one real variable ranging over the monomial's interval (exact for
    eps == 0, where the abstraction is complete for identities; sound over-approximation otherwise).
    `ideal` lists polynomials assumed to vanish.  Returns (verdict, failing pairs)."""
    pairs = split_complex(pairs)
    STATS['entries'] += len(pairs)
    verdict, failing = 'unsat', []
    batch, nm = [], 0
    def flush():
        nonlocal verdict, batch, nm
        if not batch: return
        r = _query(batch, eps, box, ideal, timeout_ms)
        if r != 'unsat':
            if verdict != 'sat': verdict = r
            if r == 'sat':
                if len(batch) == 1: failing.append(batch[0])
                else:
                    for q in batch:
                        if eps == 0 and not ideal and q[1].t == q[2].t: continue
                        if len(failing) >= 6: break
                        if _query([q], eps, box, ideal, timeout_ms) == 'sat': failing.append(q)
        batch, nm = [], 0
    for q in pairs:
        batch.append(q); nm += len(q[1].t) + len(q[2].t)
        if len(batch) >= chunk or nm > 20000: flush()
    flush()
    return verdict, failing


GRID = 10 ** 9          # coefficients of tolerance queries are rounded to 1/GRID, the rounding is charged to the tolerance


def _query(batch, eps, box, ideal, timeout_ms):
    if eps > 0 and not ideal: return _query_eps(batch, eps, box or (lambda v: (-1.0, 1.0)), timeout_ms)
    monos = {}
    for lab, a, b in batch:
        for m in list(a.t) + list(b.t): monos.setdefault(m, None)
    for p in ideal:
        for m in p.t: monos.setdefault(m, None)
    monos.pop((), None)
    names, txt = {}, []
    for i, m in enumerate(monos):
        names[m] = 't%d' % i
        txt.append('(declare-const t%d Real)' % i)
        if eps > 0:
            bd = bounds(m, box or (lambda v: (-1.0, 1.0)))
            if bd is not None: txt.append('(assert (and (<= %s t%d) (<= t%d %s)))' % (rat(bd[0]), i, i, rat(bd[1])))
    STATS['monomials'] += len(monos)
    for p in ideal: txt.append('(assert (= %s 0.0))' % linear(p, names))
    dis = []
    for lab, a, b in batch:
        la, lb = linear(a, names), linear(b, names)
        if eps == 0: dis.append('(not (= %s %s))' % (la, lb))
        else: dis.append('(let ((d (- %s %s))) (or (> d %s) (< d (- %s))))' % (la, lb, rat(eps), rat(eps)))
    txt.append('(assert (or %s false))' % ' '.join(dis))
    s = z3.SolverFor('QF_LRA') if True else z3.Solver()
    s.from_string('\n'.join(txt))
    return check(s, timeout_ms)


def _query_eps(batch, eps, box, timeout_ms):
    """residuals with coefficients rounded to a grid; the most the rounding can matter is taken off the tolerance"""
    names, txt, dis = {}, [], []
    for lab, a, b in batch:
        slack, terms, const = 0.0, [], 0
        for m, c in (a - b).t.items():
            if m == (): const = c; continue
            bd = bounds(m, box)
            k = round(c * GRID)
            if bd is not None:
                slack += abs(c * GRID - k) * max(abs(bd[0]), abs(bd[1]))
                if k == 0: continue
            if m not in names:
                names[m] = 't%d' % len(names)
                txt.append('(declare-const %s Real)' % names[m])
                if bd is not None: txt.append('(assert (and (<= %s %s) (<= %s %s)))' % (rat(bd[0]), names[m], names[m], rat(bd[1])))
            terms.append('(* %s %s)' % ('%d.0' % k if k >= 0 else '(- %d.0)' % -k, names[m]) if bd is not None else '(* %s %s)' % (rat(c * GRID), names[m]))
        lim = eps * GRID - slack
        if lim <= 0: dis.append('true'); continue
        d = '(+ 0.0 %s %s)' % (rat(const * GRID), ' '.join(terms))
        dis.append('(let ((d %s)) (or (> d %s) (< d (- %s))))' % (d, rat(lim), rat(lim)))
    STATS['monomials'] += len(names)
    txt.append('(assert (or %s false))' % ' '.join(dis))
    s = z3.SolverFor('QF_LRA')
    s.from_string('\n'.join(txt))
    return check(s, timeout_ms)


def positive(p):
    """syntactically positive: a positive constant plus nonnegative terms"""
    ok = lambda m: all(m.count(v) % 2 == 0 or poly.store().atom_def.get(v, ('',))[0] in ('abs', 'sqrt', 'exp', 'logistic') for v in set(m))
    return p.t.get((), 0) > 0 and all(c >= 0 and ok(m) for m, c in p.t.items())


def cleared(p):
    """a polynomial of the same sign with positive denominators multiplied away"""
    for _ in range(8):
        r = [v for v in p.vars() if poly.store().atom_def.get(v, ('',))[0] == 'recip']
        r = [v for v in r if positive(as_poly(poly.store().atom_def[v][1][0])) and all(m.count(v) <= 1 for m in p.t)]
        if not r: return p
        v, q = r[0], as_poly(poly.store().atom_def[r[0]][1][0])
        out = as_poly(0.)
        for m, c in p.t.items():
            if v in m:
                k = list(m); k.remove(v)
                out = out + Poly({tuple(k): c})
            else: out = out + Poly({m: c}) * q
        p = out
    return p


# ---- nonlinear queries over the actual variables ------------------------------------
class Nl:
    """nonlinear real arithmetic encoding of Polys, atoms axiomatised by their defining equations"""
    def __init__(self):
        self.v = {}
        self.side = []

    def var(self, i):
        if i not in self.v:
            x = self.v[i] = z3.Real('v%d' % i)
            d = poly.store().atom_def.get(i)
            if d:
                f, args = d
                a = [self.term(q) for q in args] if f != 'gt' else []
                if f == 'abs': self.side.append(z3.If(a[0] >= 0, x == a[0], x == -a[0]))
                elif f == 'recip': self.side.append(x * a[0] == 1)
                elif f == 'sqrt': self.side += [x * x == a[0], x >= 0]
                elif f == 'gt':
                    q = cleared(args[0] - args[1])
                    self.side.append(x == z3.If(self.term(q) > 0, 1.0, 0.0))
                elif f == 'eq': self.side.append(x == z3.If(a[0] == a[1], 1.0, 0.0))
                elif f == 'ite': self.side.append(x == z3.If(a[0] != 0, a[1], a[2]))
                elif f == 'max': self.side.append(x == z3.If(a[0] > a[1], a[0], a[1]))
                elif f == 'min': self.side.append(x == z3.If(a[0] < a[1], a[0], a[1]))
                elif f == 'sign': self.side.append(x == z3.If(a[0] > 0, 1.0, z3.If(a[0] < 0, -1.0, 0.0)))
                elif f == 'logistic': self.side += [x > 0, x < 1]
                elif f == 'exp': self.side += [x > 0]
        return self.v[i]

    def term(self, p):
        p = as_poly(p)
        out = []
        for m, c in p.t.items():
            t = z3.RealVal(str(Fraction(float(c)).limit_denominator(10 ** 9) if abs(c) > 1e-4 else Fraction(float(c)).limit_denominator(10 ** 18)))
            for i in m: t = t * self.var(i)
            out.append(t)
        return z3.Sum(out) if out else z3.RealVal(0)


def val(model, x):
    r = model.eval(x, model_completion=True)
    if z3.is_algebraic_value(r): r = r.approx(12)
    return float(r.numerator_as_long()) / float(r.denominator_as_long())
