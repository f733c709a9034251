"""Obligations: run a real function symbolically, decide with z3, replay counterexamples on the real code."""
import json, os, sys, time, traceback, hashlib, signal
import numpy as np
import jax
import jax.numpy as jnp
from . import poly, jx, smt
from .poly import Poly, as_poly, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckError(Exception):
    """the check itself could not decide (neither held nor violated)"""


class Arg:
    """a symbolic input: shape, and how to draw concrete values for it"""
    def __init__(self, name, shape, kind='free', box=1.0):
        self.name, self.shape, self.kind, self.box = name, tuple(shape), kind, box

    def concrete(self, rng):
        if self.kind == 'gl':          # a well conditioned invertible matrix
            n = self.shape[-1]
            return (np.eye(n) + .35 * rng.uniform(-1, 1, self.shape)).astype(np.float32)
        if self.kind == 'orth':
            return np.linalg.qr(rng.standard_normal(self.shape))[0].astype(np.float32)
        if self.kind == 'pos':
            return rng.uniform(.2, 1, self.shape).astype(np.float32) * self.box
        return (self.box * rng.uniform(-1, 1, self.shape)).astype(np.float32)


    def admissible(self, v):
        """the value nearest to v this input may take (None: there is none nearby)"""
        v = np.asarray(v, dtype=np.float32)
        if self.kind == 'orth':
            u, s, vh = np.linalg.svd(v)
            return (u @ vh).astype(np.float32)
        if self.kind == 'gl' and (not np.isfinite(v).all() or np.linalg.cond(v) > 50): return None
        return v


def Orth(name, n): return Arg(name, (n, n), 'orth')
def GL(name, n): return Arg(name, (n, n), 'gl')
def Free(name, *shape, box=1.0): return Arg(name, shape, 'free', box)
def Pos(name, *shape, box=1.0): return Arg(name, shape, 'pos', box)


class TimeLimit:
    """raise in code that does not come to an end (nested use keeps the outer limit)"""
    def __init__(self, seconds, msg='took too long'): self.seconds, self.msg = seconds, msg
    def __enter__(self):
        def hit(*a): raise CheckError(self.msg)
        self.old = signal.signal(signal.SIGALRM, hit)
        self.left = signal.alarm(self.seconds)
        self.t = time.time()
    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left: signal.alarm(max(1, int(self.left - (time.time() - self.t))))


def flatten(x):
    return [np.asarray(a) if not isinstance(a, jnp.ndarray) else a for a in jax.tree_util.tree_leaves(x)]


class Ctx:
    def __init__(self, pid, tier, seed=1, shard=0, shards=1, only=None, values=None):
        self.pid, self.tier, self.seed, self.shard, self.shards = pid, tier, seed, shard, shards
        self.only, self.values = only, values
        self.index = 0
        self.obl = []           # discharged obligation names
        self.violations = []    # (name, replay path, message)
        self.errors = []
        self.functions = set()
        self.witness = 0
        self.samples = []
        self.validated = 0
        self.replayed = []
        self.prims = {}
        self.bounds = []
        self.assumptions = set()
        self.t0 = time.time()
        self.deadline = None
        self.merge = 0.0        # see poly.Store.merge

    @property
    def thorough(self): return self.tier == 'thorough'

    def bound(self, text):
        if text not in self.bounds: self.bounds.append(text)

    def assume(self, text):
        self.assumptions.add(text)

    def encodes(self, *names):
        self.functions.update(names)

    # ---- selection -------------------------------------------------------------------
    def mine(self, name):
        if self.only is not None: return name == self.only
        self.index += 1
        if self.index % self.shards != self.shard: return False
        if os.environ.get('TIMES'):
            if getattr(self, 'last', None): print('since %6.1f %s' % (time.time() - self.last[1], self.last[0]), file=sys.stderr, flush=True)
            self.last = name, time.time()
        if self.tier == 'quick' and time.time() - self.t0 > 600:
            self.errors.append((name, 'not reached within the time of a quick run'))
            return False
        return True

    def rng(self, name):
        h = int(hashlib.sha256(('%s/%d' % (name, self.seed)).encode()).hexdigest()[:8], 16)
        return np.random.default_rng(h)

    # ---- reporting -------------------------------------------------------------------
    def violation(self, name, msg, values=None, observed=None):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha256(name.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, obligation=name, message=msg, values=values or {}, observed=observed,
                           rerun='bash /verif/check.sh %s quick --replay %s' % (self.pid, path)), f, indent=1, default=str)
        self.violations.append((name, path, msg))

    def error(self, name, msg):
        self.errors.append((name, msg))

    def done(self, name, sample=None):
        self.obl.append(name)
        if sample and len(self.samples) < 12: self.samples.append('%s: %s' % (name, sample))

    # ---- guarded obligation ----------------------------------------------------------
    def obligation(self, name, body):
        """body(): raises nothing when the obligation was decided; exceptions of the real code are violations only
        through `real`"""
        if self.mine(name): self.obligation_mine(name, body)

    def obligation_mine(self, name, body):
        t = time.time()
        try:
            poly.reset()
            with TimeLimit(3600 if self.thorough else 240, 'took too long'): body()
            if os.environ.get('TIMES'): print('%6.1f %s' % (time.time() - t, name), file=sys.stderr, flush=True)
        except CheckError as e:
            self.error(name, str(e))
        except RealRaise as e:
            self.violation(name, 'the code raises %s' % e, observed=str(e))
        except Unsupported as e:
            self.error(name, 'not encodable: %s' % e)
        except Exception as e:
            where = [t for t in traceback.extract_tb(e.__traceback__) if '/repo/' in t.filename]
            if where and 'racer' not in type(e).__name__ and 'racer' not in str(e) and 'Concret' not in type(e).__name__:
                return self.violation(name, 'the code raises %s: %s (at %s:%d)' % (type(e).__name__, str(e)[:200], where[-1].filename, where[-1].lineno))
            self.error(name, ''.join(traceback.format_exception(e))[-1500:])

    def real(self, f, *a, **k):
        """call real code concretely; an exception is a violation of the obligation"""
        try:
            return f(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if '/repo/' in t.filename]
            if not where: raise
            raise RealRaise('%s: %s (at %s:%d)' % (type(e).__name__, str(e)[:200], where[-1].filename, where[-1].lineno))

    # ---- the main workhorse ------------------------------------------------------------
    def trace(self, f, args):
        avals = [jax.ShapeDtypeStruct(a.shape, jnp.float32) for a in args]
        return jax.make_jaxpr(f)(*avals)

    def symbolic(self, f, args, stubs=None, closed=None, arrays=None):
        """outputs of f on symbolic inputs (flat list of arrays), and the input arrays"""
        cj = closed if closed is not None else self.trace(f, args)
        if arrays is None:
            arrays = []
            for a in args:
                arr = poly.store().array(a.name, a.shape)
                arrays.append(arr)
                if a.kind == 'gl':
                    jx.register_inverse(poly.store(), arr, poly.store().array(a.name + 'inv', a.shape))
                if a.kind == 'orth': jx.register_inverse(poly.store(), arr, arr.T)
        it = jx.Interp(poly.store(), stubs)
        outs = it.closed(cj, *arrays)
        for k, v in it.prims.items(): self.prims[k] = self.prims.get(k, 0) + v
        self.functions.update('jit:' + c for c in it.called if c)
        return outs, arrays

    def env(self, args, arrays, vals):
        env = {}
        for a, arr, v in zip(args, arrays, vals):
            for p, x in zip(arr.reshape(-1), np.asarray(v, dtype=np.float64).reshape(-1)):
                (m,) = p.t
                env[m[0]] = float(x)
            if a.kind == 'gl':
                X = poly.store().inverse[jx.mkey(arr)]
                iv = np.linalg.inv(np.asarray(v, dtype=np.float64))
                for p, x in zip(X.reshape(-1), iv.reshape(-1)):
                    (m,) = p.t
                    env[m[0]] = float(x)
        todo = list(poly.store().inverse_pairs)
        for M, X in todo:
            num = np.array([poly.evaluate(as_poly(q), env) for q in M.reshape(-1)]).reshape(M.shape)
            iv = np.linalg.inv(num)
            for p, x in zip(X.reshape(-1), iv.reshape(-1)):
                (m,) = as_poly(p).t
                env[m[0]] = x
        return env

    def identity(self, name, f, args, eps=0.0, tol=2e-3, box=None, stubs=None, ideal=None, check=True):
        """Obligation: f(*args) = (code, oracle) agree for every value of the symbolic args.

        eps == 0: exact identity of polynomials. eps > 0: |difference| <= eps for all args in their boxes."""
        if not self.mine(name): return
        self._guard(name, f, args, eps, tol, box, stubs, ideal)

    def _guard(self, name, f, args, eps=0.0, tol=2e-3, box=None, stubs=None, ideal=None):
        t = time.time()
        try:
            poly.reset()
            poly.store().merge = self.merge
            with TimeLimit(3600 if self.thorough else 240, 'took too long'): self._identity(name, f, args, eps, tol, box, stubs, ideal)
        except CheckError as e:
            self.error(name, str(e))
        except RealRaise as e:
            self.violation(name, 'the code raises %s' % e, observed=str(e))
        except Exception as e:
            self.error(name, ''.join(traceback.format_exception(e))[-1800:])
        if os.environ.get('TIMES'): print('%6.1f %s' % (time.time() - t, name), file=sys.stderr, flush=True)
        if self.errors and self.errors[-1][0] == name and self.values is None: self.refute(name, f, args, tol)

    def refute(self, name, f, args, tol):
        """an obligation that could not be decided symbolically: a concrete counterexample still is a violation"""
        rng = self.rng(name + '/refute')
        for _ in range(6):
            vals = [a.concrete(rng) for a in args]
            try:
                L, R = self.run_real(f, vals)
                g, msg = self.gap(L, R), 'the code and the oracle differ'
            except RealRaise as e: g, msg = float('inf'), 'the code raises %s' % e
            except Exception: return
            if g > tol:
                self.errors.pop()
                return self.violation(name, '%s by %.3g (not encodable, found by execution)' % (msg, g), self.dump(args, vals))

    def pairs_of(self, lhs, rhs):
        out = []
        for i, (a, b) in enumerate(zip(lhs, rhs)):
            a, b = jx.to_obj(a), jx.to_obj(b)
            for idx in np.ndindex(*a.shape): out.append(('%d%s' % (i, list(idx)), as_poly(a[idx]), as_poly(b[idx])))
        return out

    def run_real(self, f, vals):
        r = self.real(f, *[jnp.asarray(v) for v in vals])
        lhs, rhs = r
        L, R = flatten(lhs), flatten(rhs)
        if len(L) != len(R): raise RealRaise('number of outputs %d, expected %d' % (len(L), len(R)))
        for a, b in zip(L, R):
            if tuple(a.shape) != tuple(b.shape): raise RealRaise('result of shape %s, expected %s' % (tuple(a.shape), tuple(b.shape)))
        return L, R

    def gap(self, L, R):
        g = 0.0
        for a, b in zip(L, R):
            a, b = np.asarray(a), np.asarray(b)
            if a.size == 0: continue
            if not (np.isfinite(a).all()): return float('inf')
            d = np.abs(a - b) / (1 + np.abs(b))
            g = max(g, float(d.max()))
        return g

    def _identity(self, name, f, args, eps, tol, box, stubs, ideal):
        rng = self.rng(name)
        if self.values is not None:
            vals = [np.asarray(self.values[a.name], dtype=np.float32) if a.name in self.values else a.concrete(rng) for a in args]
            L, R = self.run_real(f, vals)
            g = self.gap(L, R)
            print('replay %s: largest relative difference between the code and the oracle: %.3g' % (name, g))
            if g > tol: self.violation(name, 'differs by %.3g on the given input' % g, self.values)
            return
        vals = [a.concrete(rng) for a in args]
        L = R = None
        if self.thorough or len(self.obl) % 4 == 0: L, R = self.run_real(f, vals)
        cell = {}
        def flat(*a):
            l, r = f(*a)
            l, r = flatten(l), flatten(r)
            cell['n'] = len(l)
            if [tuple(q.shape) for q in l] != [tuple(q.shape) for q in r]: raise ValueError('shapes')
            return tuple(l) + tuple(r)
        try:
            cj = self.trace(flat, args)
        except jax.errors.TracerBoolConversionError:
            return self.forked(name, f, flat, cell, args, vals, eps, tol, box, stubs, ideal, rng)
        except Exception as e:
            L, R = self.run_real(f, vals)       # shape errors and exceptions of the real code
            g = self.gap(L, R)
            if g > tol:
                return self.violation(name, 'differs by %.3g (input could not be made symbolic: %s)' % (g, type(e).__name__), self.dump(args, vals))
            raise
        outs, arrays = self.symbolic(None, args, stubs, closed=cj)
        n = cell['n']
        lhs, rhs = outs[:n], outs[n:]
        # the encoding agrees with the real execution on a concrete input
        env = self.env(args, arrays, vals) if L is not None else {}
        for side, conc, symb in (('code', L, lhs), ('oracle', R, rhs)) if L is not None else ():
            for c, s in zip(conc, symb):
                ev = np.array([complex(poly.evaluate(as_poly(q), env)) for q in jx.to_obj(s).reshape(-1)])
                cc = np.asarray(c).astype(complex).reshape(-1)
                if ev.size and not np.all(np.abs(ev - cc) <= 1e-2 * (1 + np.abs(cc))):
                    if not np.isfinite(cc).all(): continue
                    raise CheckError('encoding of the %s disagrees with its execution (%.3g)' % (side, np.abs(ev - cc).max()))
        if L is not None: self.validated += 1
        if self.settle(name, f, args, arrays, lhs, rhs, vals, eps, tol, box, ideal, rng):
            self.done(name, '%d entries equal for all %s' % (sum(np.size(q) for q in lhs), ', '.join('%s%s' % (a.name, list(a.shape)) for a in args)))

    def settle(self, name, f, args, arrays, lhs, rhs, vals, eps, tol, box, ideal, rng, path=None):
        """decide one set of equations; True when they hold (a violation is reported, no answer raises)"""
        pairs = self.pairs_of(lhs, rhs)
        bx = box or self.box_of(args, arrays)
        verdict, failing = smt.decide(pairs, eps=eps, box=bx, ideal=ideal(arrays) if ideal else ())
        if verdict == 'unsat': return True
        if verdict == 'unknown': raise CheckError('solver returned unknown')
        # counterexample: concretise and replay on the real code
        best = (0.0, None)
        for cand in self.candidates(args, arrays, failing, vals, eps, rng):
            if path is not None: cand = path(cand)
            cand = [a.admissible(c) for a, c in zip(args, cand)]
            if any(c is None for c in cand): continue
            try: L, R = self.run_real(f, cand)
            except RealRaise as e:
                self.violation(name, 'the code raises %s' % e, self.dump(args, cand))
                return False
            g = self.gap(L, R)
            if g > best[0] or best[1] is None: best = (g, cand)
            if g > tol: break
        if best[0] > tol:
            self.violation(name, 'the code and the oracle differ by %.3g (entry %s)' % (best[0], failing[0][0] if failing else '?'),
                           self.dump(args, best[1]), observed=best[0])
            return False
        raise CheckError('counterexample did not reproduce (gap %.3g), entry %s: %r vs %r' %
                         (best[0], failing[0][0] if failing else '?', failing[0][1] if failing else None, failing[0][2] if failing else None))

    def forked(self, name, f, flat, cell, args, vals, eps, tol, box, stubs, ideal, rng):
        """code which branches on values of its input: every combination of branches, each under the equations it implies
        (inequalities of a branch are dropped: more inputs than reach it)"""
        todo, paths = [()], 0
        while todo:
            dec = todo.pop()
            fk = Fork(dec)
            def withc(*a):
                fk.start()
                return flat(*a) + tuple(fk.conds)
            poly.reset()
            poly.store().merge = self.merge
            with fk: cj = self.trace(withc, args)
            taken = tuple(fk.taken)
            for i in range(len(dec), len(taken)): todo.append(taken[:i] + (not taken[i],))
            paths += 1
            if paths > 40: raise CheckError('more than 40 branches')
            n = cell['n']
            outs, arrays = self.symbolic(None, args, stubs, closed=cj)
            eqs = branch_equations(outs[2 * n:], taken)
            if eqs is None: continue
            sub, open_ = solve_linear(eqs)
            if sub is None: continue
            path = None
            if sub:
                sarr = [np.vectorize(lambda p: poly.substitute(p, sub), otypes=[object])(q) if q.size else q for q in arrays]
                if any(a.kind == 'orth' and any(v in sub for p in q.reshape(-1) for v in p.vars()) for a, q in zip(args, arrays)): raise Unsupported('a branch on entries of an orthogonal matrix')
                for a, q in zip(args, sarr):
                    if a.kind == 'gl': jx.register_inverse(poly.store(), q, poly.store().array(a.name + 'inv', a.shape))
                outs, _ = self.symbolic(None, args, stubs, closed=cj, arrays=sarr)
                c2 = branch_equations(outs[2 * n:], taken)
                if c2 is None: continue
                def path(cand, sub=sub, sarr=sarr):
                    env = {}
                    for q, v in zip(arrays, cand):
                        for p, x in zip(q.reshape(-1), np.asarray(v).reshape(-1)):
                            (m,) = p.t
                            env[m[0]] = float(x)
                    return [np.array([np.real(poly.evaluate(as_poly(p), env)) for p in q.reshape(-1)], dtype=np.float32).reshape(q.shape) for q in sarr]
            if not self.settle(name, f, args, arrays, outs[:n], outs[n:2 * n], vals, eps, tol, box, ideal, rng, path): return
        self.done(name, '%d branches' % paths)

    def box_of(self, args, arrays):
        b = {}
        for a, arr in zip(args, arrays):
            for p in arr.reshape(-1):
                (m,) = p.t
                b[m[0]] = (0.0 if a.kind == 'pos' else -a.box, a.box)
        def box(v):
            if v in b: return b[v]
            d = poly.store().atom_def.get(v)
            if d and d[0] in ('logistic',): return (0.0, 1.0)
            if d and d[0] in ('sin', 'cos', 'tanh', 'sign'): return (-1.0, 1.0)
            return None
        return box

    def dump(self, args, vals):
        return {a.name: np.asarray(v).tolist() for a, v in zip(args, vals)}

    def candidates(self, args, arrays, failing, vals, eps, rng):
        """concrete inputs for a failing entry: first the solver's model of the residual, then perturbations of it"""
        import z3
        for lab, a, b in failing[:2]:
            r = a - b
            if len(r.t) <= 300 and len(r.vars()) <= 60:
                nl = smt.Nl()
                t = nl.term(r)
                s = z3.Solver()
                thr = max(eps, 0.05)
                s.add(z3.Or(t > thr, t < -thr))
                bx = self.box_of(args, arrays)
                for M, X in self.inverse_constraints(arrays): s.add(nl.term(M) == nl.term(X))
                for i, x in list(nl.v.items()):
                    q = bx(i)
                    if q: s.add(x >= q[0], x <= q[1])
                s.add(*nl.side)
                if smt.check(s, 10000) == 'sat':
                    m = s.model()
                    out = []
                    for a_, arr, v in zip(args, arrays, vals):
                        o = np.array(v, dtype=np.float32).copy().reshape(-1)
                        for k, p in enumerate(arr.reshape(-1)):
                            (mm,) = p.t
                            if mm[0] in nl.v: o[k] = smt.val(m, nl.v[mm[0]])
                        out.append(o.reshape(np.shape(v)))
                    yield out
        yield vals
        for _ in range(12):
            yield [a.concrete(rng) for a in args]
        for lab, a, b in failing[:2]:     # vertices of the box, greedily
            r = a - b
            for _ in range(3):
                vs = sorted(v for v in r.vars() if v not in poly.store().atom_def and v != 0)
                cur = {v: float(rng.choice([-1, 1])) for v in vs}
                try:
                    for v in vs:
                        best = max((abs(poly.evaluate(r, dict(cur, **{v: s}))), s) for s in (-1.0, 1.0))
                        cur[v] = best[1]
                except Exception: break
                out = []
                for a_, arr, vv in zip(args, arrays, vals):
                    o = np.array(vv, dtype=np.float32).copy().reshape(-1)
                    if a_.kind != 'gl':
                        for k, p in enumerate(arr.reshape(-1)):
                            (mm,) = p.t
                            o[k] = cur.get(mm[0], 0.0) * a_.box
                            if a_.kind == 'pos': o[k] = abs(o[k])
                    out.append(o.reshape(np.shape(vv)))
                yield out

    def inverse_constraints(self, arrays):
        return []

    def vacuity(self, name, f, args, **kw):
        """twin: the same obligation with a wrong oracle must be refuted by the solver"""
        if self.only is not None: return
        if not self.mine(name): return
        poly.reset()
        def flat(*a):
            l, r = f(*a)
            return tuple(flatten(l)) + tuple(flatten(r))
        try:
            outs, arrays = self.symbolic(flat, args)
            n = len(outs) // 2
            v, failing = smt.decide(self.pairs_of(outs[:n], outs[n:]), eps=kw.get('eps', 0.0), box=self.box_of(args, arrays))
        except Exception as e:
            return self.error(name, 'not encodable: %s: %s' % (type(e).__name__, str(e)[:200]))
        if v != 'sat': self.error(name, 'vacuous: the wrong oracle was not refuted (%s)' % v)
        else: self.witness += 1


class RealRaise(Exception):
    pass


class Fork:
    """while active, branching on a traced boolean follows the given decisions (true beyond them) and is recorded"""
    def __init__(self, decisions): self.decisions, self.taken, self.conds = decisions, [], []
    def start(self): self.taken, self.conds = [], []

    def __enter__(self):
        from jax._src import core as jc
        self.cls, self.old = jc.Tracer, jc.Tracer.__bool__
        def decide(t):
            while hasattr(t, 'primal'): t = t.primal
            if not isinstance(t, jc.Tracer): return bool(t)
            if type(t).__name__ != 'DynamicJaxprTracer': raise Unsupported('a branch on a value of %s' % type(t).__name__)
            for c, d in zip(self.conds, self.taken):
                if c is t: return d
            d = self.decisions[len(self.taken)] if len(self.taken) < len(self.decisions) else True
            self.taken.append(d); self.conds.append(t)
            return d
        jc.Tracer.__bool__ = decide

    def __exit__(self, *a): self.cls.__bool__ = self.old


def branch_equations(conds, taken):
    """polynomials that vanish when the branch is taken, None when it cannot be"""
    eqs = []
    for c, d in zip(conds, taken):
        q = as_poly(jx.to_obj(c).reshape(-1)[0])
        if not d: q = 1 - q
        if q.is_const():
            if abs(q.const()) < .5: return None
            continue
        if len(q.t) == 1:        # a conjunction
            (m, k), = q.t.items()
            for v in m:
                fn, a = poly.store().atom_def.get(v, ('', ()))
                if fn == 'eq': eqs.append(as_poly(a[0]) - as_poly(a[1]))
    return eqs


def solve_linear(eqs):
    """({variable: polynomial}, equations left over); (None, ..) when inconsistent"""
    sub, left = {}, []
    for p in eqs:
        p = poly.substitute(p, sub)
        if p.is_const():
            if abs(p.const()) > 1e-9: return None, left
            continue
        v = next((m[0] for m in p.t if len(m) == 1 and m[0] and m[0] not in poly.store().atom_def and sum(m[0] in k for k in p.t) == 1 and abs(p.t[m]) > 1e-6), None)
        if v is None or any(v in poly.as_poly(poly.store().atom_def[w][1][0]).vars() for w in p.vars() if w in poly.store().atom_def):
            left.append(p)
            continue
        c = p.t[(v,)]
        r = (p - Poly({(v,): c})) * (-1 / c)
        sub = {k: poly.substitute(x, {v: r}) for k, x in sub.items()}
        sub[v] = r
    return sub, left
