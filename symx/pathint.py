"""Symbolic integers executing real python code, with path forking (z3 linear/nonlinear integer arithmetic)."""
import z3
from . import smt
from .core import CheckError, TimeLimit


class Path:
    cur = None

    def __init__(self, script, side):
        self.script, self.k = list(script), 0
        self.solver = z3.Solver()
        self.solver.add(*side)
        self.alts = []

    def branch(self, cond):
        """truth value of cond on this path; the other one is explored later when feasible"""
        if self.k < len(self.script): d = self.script[self.k]
        else:
            d = True
            if self.sat(cond):
                if self.sat(z3.Not(cond)): self.alts.append(self.script[:self.k] + [False])
            else: d = False
            self.script.append(d)
        self.k += 1
        self.solver.add(cond if d else z3.Not(cond))
        return d

    def value(self, e):
        """a concrete value; every other feasible one is explored later"""
        if self.k < len(self.script): v = self.script[self.k]
        else:
            vals = []
            self.solver.push()
            while len(vals) < 3000 and smt.check(self.solver) == 'sat':
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(e != v)
            self.solver.pop()
            if len(vals) >= 3000: raise CheckError('too many values')
            if not vals: raise CheckError('infeasible path')
            v = vals[0]
            self.alts += [self.script[:self.k] + [w] for w in vals[1:]]
            self.script.append(v)
        self.k += 1
        self.solver.add(e == v)
        return v

    def sat(self, c):
        self.solver.push()
        self.solver.add(c)
        r = smt.check(self.solver, 20000)
        self.solver.pop()
        if r == 'unknown': raise CheckError('solver returned unknown')
        return r == 'sat'


def explore(f, side, limit=20000):
    """yield (path, result) for every feasible path of f"""
    todo, n = [[]], 0
    while todo:
        p = Path(todo.pop(), side)
        Path.cur = p
        try:
            with TimeLimit(20, 'a path does not come to an end'): r = f()
        finally: Path.cur = None
        todo += p.alts
        n += 1
        if n > limit: raise CheckError('too many paths')
        yield p, r


def ex(x): return x.e if isinstance(x, SymInt) else x


class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return Path.cur.branch(self.e)


def floordiv(a, b):
    """python floor division for positive constant divisors equals smt div"""
    return a / b if not isinstance(a, int) or not isinstance(b, int) else a // b


class SymInt:
    def __init__(self, e): self.e = e
    def _c(f):
        def g(self, o):
            if isinstance(o, float) and o == int(o): o = int(o)
            if not isinstance(o, (int, SymInt)):
                try: o = o.__index__()
                except Exception: return NotImplemented
            return f(self.e, ex(o))
        return g
    __add__ = _c(lambda a, b: SymInt(a + b)); __radd__ = _c(lambda a, b: SymInt(b + a))
    __sub__ = _c(lambda a, b: SymInt(a - b)); __rsub__ = _c(lambda a, b: SymInt(b - a))
    __mul__ = _c(lambda a, b: SymInt(a * b)); __rmul__ = _c(lambda a, b: SymInt(b * a))
    __floordiv__ = _c(lambda a, b: SymInt(floordiv(a, b))); __mod__ = _c(lambda a, b: SymInt(a % b))
    __lt__ = _c(lambda a, b: SymBool(a < b)); __le__ = _c(lambda a, b: SymBool(a <= b))
    __gt__ = _c(lambda a, b: SymBool(a > b)); __ge__ = _c(lambda a, b: SymBool(a >= b))
    __eq__ = _c(lambda a, b: SymBool(a == b)); __ne__ = _c(lambda a, b: SymBool(a != b))
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return SymInt(-self.e)
    def __bool__(self): return Path.cur.branch(self.e != 0)
    def __index__(self): return Path.cur.value(self.e)
    __int__ = __index__
    def __float__(self): return float(Path.cur.value(self.e))
    def __truediv__(self, o): return int(self) / (int(o) if isinstance(o, SymInt) else o)
    def __rtruediv__(self, o): return o / int(self)
    def __round__(self, k=None): return self
    __floor__ = __ceil__ = __trunc__ = __round__
    def __abs__(self): return self if Path.cur.branch(self.e >= 0) else -self
    def __array__(self, dtype=None, copy=None):
        import numpy as np
        return np.asarray(int(self), dtype=dtype)
    def __lshift__(self, k): return SymInt(self.e * 2 ** int(k))
    def __rshift__(self, k): return SymInt(self.e / 2 ** int(k))
    def __and__(self, o): return int(self) & int(o)
    def bit_length(self): return int(self).bit_length()
    def item(self): return self
    def __pow__(self, k): return SymInt(self.e ** k) if not isinstance(k, SymInt) else int(self) ** int(k)
    def __rpow__(self, b): return b ** int(self)
    def __hash__(self): return hash(int(self))
    def __str__(self): return 'n'
    __repr__ = __str__
