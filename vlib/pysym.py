"""Symbolic execution of ordinary Python code by re-execution with forking integers.

``SymInt`` is an ``int`` whose operations build z3 Int terms; every comparison that the
code under test turns into a decision asks the engine, which explores both sides as far as
they are satisfiable.  The concrete payload of a SymInt is a poison value: C code that uses
it without asking produces results that the per-path concrete validation exposes.
"""
import z3

POISON = 7919


class Stop(BaseException):
    """Path limit reached."""


class Engine:
    cur = None

    def __init__(self, stats, pre):
        self.pre = list(pre)
        self.stats = stats
        self.prefix = []
        self.paths = 0

    def feasible(self, conds):
        import time
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*self.pre, *conds)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            raise RuntimeError("solver gave no answer on a path condition")
        if r == z3.sat:
            self.stats.sat += 1
            return True
        self.stats.unsat += 1
        return False

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.path)
        if k < len(self.prefix):
            taken, c = self.prefix[k]
            if not c.eq(cond):
                raise RuntimeError("execution is not deterministic")
            self.path.append((taken, cond))
            return taken
        conds = [c if t else z3.Not(c) for t, c in self.path]
        yes = self.feasible(conds + [cond])
        no = self.feasible(conds + [z3.Not(cond)]) if yes else True
        if yes and no:
            self.todo.append(self.path + [(False, cond)])
        self.path.append((yes, cond))
        return yes

    def concretise(self, e):
        """Fork over the values of an Int term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(4096):
            s = z3.Solver()
            s.add(*self.pre, *[c if t else z3.Not(c) for t, c in self.path])
            if s.check() != z3.sat:
                raise RuntimeError("no value")
            # deterministic: smallest value first
            v = s.model().eval(e, model_completion=True).as_long()
            lo = -1
            while True:
                s.push()
                s.add(e < v)
                if s.check() == z3.sat:
                    v = s.model().eval(e, model_completion=True).as_long()
                    s.pop()
                else:
                    s.pop()
                    break
            if self.decide(e == v):
                return v
        raise RuntimeError("too many values")

    def explore(self, fn, limit=20000):
        """fn() is run once per path; yields (path conditions, result or exception)."""
        self.todo = [[]]
        while self.todo:
            self.prefix = self.todo.pop()
            self.path = []
            Engine.cur = self
            self.paths += 1
            if self.paths > limit:
                raise RuntimeError("too many paths")
            try:
                r = ("ok", fn())
            except RuntimeError:
                raise
            except Exception as e:      # the code under test raised
                r = ("raise", e)
            finally:
                Engine.cur = None
            yield [c if t else z3.Not(c) for t, c in self.path], r


def term(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def fork(cond):
    if Engine.cur is None:
        raise RuntimeError("symbolic decision outside the engine")
    return Engine.cur.decide(cond)


class SymInt(int):
    def __new__(cls, e):
        x = int.__new__(cls, POISON)
        x.e = e
        return x

    def conc(self):
        if Engine.cur is None:
            raise RuntimeError("symbolic value outside the engine")
        return Engine.cur.concretise(self.e)

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return fork(self.e != 0)

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __index__(self):
        return self.conc()

    __int__ = __index__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if fork(self.e >= 0) else SymInt(-self.e)


def _arith(name, f):
    def op(self, o):
        t = term(o)
        return NotImplemented if t is None else SymInt(f(self.e, t))

    def rop(self, o):
        t = term(o)
        return NotImplemented if t is None else SymInt(f(t, self.e))
    setattr(SymInt, f"__{name}__", op)
    setattr(SymInt, f"__r{name}__", rop)


_arith("add", lambda a, b: a + b)
_arith("sub", lambda a, b: a - b)
_arith("mul", lambda a, b: a * b)


def _cmp(name, f, other):
    def op(self, o):
        t = term(o)
        if t is None:
            return other
        return fork(f(self.e, t))
    setattr(SymInt, f"__{name}__", op)


_cmp("lt", lambda a, b: a < b, NotImplemented)
_cmp("le", lambda a, b: a <= b, NotImplemented)
_cmp("gt", lambda a, b: a > b, NotImplemented)
_cmp("ge", lambda a, b: a >= b, NotImplemented)
_cmp("eq", lambda a, b: a == b, NotImplemented)
_cmp("ne", lambda a, b: a != b, NotImplemented)


def _conc(name):
    def op(self, *a):
        a = [x.conc() if isinstance(x, SymInt) else x for x in a]
        return getattr(int, name)(self.conc(), *a)
    setattr(SymInt, name, op)


for _n in ("__lshift__", "__rshift__", "__and__", "__or__", "__xor__", "__floordiv__", "__mod__", "__pow__",
           "__rlshift__", "__rrshift__", "__rand__", "__ror__", "__rxor__", "__rfloordiv__", "__rmod__",
           "__rpow__", "__divmod__", "__invert__", "__truediv__", "bit_length", "__round__", "__trunc__",
           "__floor__", "__ceil__", "__float__", "to_bytes", "bit_count"):
    _conc(_n)
