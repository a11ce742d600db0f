"""Path context: path condition, branch decisions, symbolic scalars."""
from fractions import Fraction

from . import terms as T
from . import smt
from .terms import I, R, N, h, cmp, band, bnot, TRUE, FALSE


LOOPS = [None]


class Static:
    """what a program can hold but not change"""


class Unsupported(BaseException):
    """the verifier cannot follow the code here (never a verdict about the code)"""


class PathDone(BaseException):
    """this path has been fully verified (loop cut)"""


class Infeasible(BaseException):
    """the path condition is contradictory"""


def _le(b):
    """the integer comparison as d <= 0"""
    return b.a[1] + 1 if b.a[0] == "<" else b.a[1]


class Ctx:
    cur = None

    def __init__(self, prefix=(), label=""):
        self.pc = []
        self.prefix = list(prefix)
        self.trace = []          # decisions taken: (bool, forced)
        self.forks = []          # alternative prefixes discovered
        self.subst = {}
        self.notes = set()
        self.memo = {}
        self.rng = ("init",)
        self.rngpos = 0
        self.label = label
        self.events = LOOPS[0].PList() if LOOPS[0] else []
        self.files = {}
        self.nfork = 0
        self.consts = set()
        self.loops = {}
        self.sat_timeout = 1500
        self.generic = 0         # inside an element of a comprehension
        self.seqs = {}           # sequences of the loop rule
        self.seqmemo = {}
        self.loopframes = []     # generic iterations in progress
        self.dropped = []

    # ---- assumptions
    def assume(self, b):
        b = self.norm(b)
        if b.op == "true":
            return
        if b.op == "false":
            raise Infeasible()
        if b.op == "and":
            for y in b.a:
                self.assume(y)
            return
        if b.op == "exists":
            lam = b.a[0]
            (v, e), = lam.a[0]
            nv = T.fresh("ex_" + v.split("~")[0])
            w = I.var(nv, e)
            self.assume(cmp("<=", I.const(0), w))
            self.assume(cmp("<", w, e))
            self.assume(T.subst(lam.a[1], {v: w}))
            return
        self.pc.append(b)
        self.memo = {}
        if b.op == "cmp" and isinstance(b.a[1], I):
            if b.a[0] == "==":
                self._learn_eq(b.a[1])
            elif b.a[0] in ("<=", "<"):
                # d <= 0 and -d <= 0
                d = _le(b)
                k = h(-d)
                if any(p.op == "cmp" and p.a[0] != "==" and isinstance(p.a[1], I) and h(_le(p)) == k for p in self.pc[:-1]):
                    self._learn_eq(d)

    def _learn_eq(self, d):
        """orient an integer equality  v == expr  for a variable v"""
        for k, (c, at) in d.t.items():
            if len(at) == 1 and at[0].op == "iv" and c in (1, -1):
                v = at[0].a[0]
                s = T.solve_for(d, v)
                if s is None or v in T.fv(s):
                    continue
                # prefer eliminating towards constants / other dims
                for kk in list(self.subst):
                    self.subst[kk] = T.subst(self.subst[kk], {v: s})
                self.subst[v] = s
                self.pc = [T.subst(p, {v: s}) if v in T.fv(p) else p for p in self.pc
                           ]
                # an index into a single element
                for w in list(self.consts):
                    if w in T.VAREXT and w not in self.subst and T.subst(I.of(T.VAREXT[w]), self.subst).cval() == 1:
                        self._learn_eq(I.var(w))
                return

    def norm(self, x):
        if self.subst:
            x = T.subst(x, self.subst)
        if self.seqs and isinstance(x, (I, R, N)):
            x = LOOPS[0].resolve(x)
        return x

    def check_feasible(self):
        if self._sat(TRUE) == "unsat":
            raise Infeasible()

    # ---- decisions
    def known(self, b):
        """True/False if b is decided by the path condition, else None"""
        b = self.norm(b)
        if b.op == "true":
            return True
        if b.op == "false":
            return False
        k = h(b)
        if k in self.memo:
            return self.memo[k]
        res = None
        r1 = self._sat(bnot(b))
        if r1 == "unsat":
            res = True
        else:
            r2 = self._sat(b)
            if r2 == "unsat":
                res = False
        self.memo[k] = res
        return res

    def _sat(self, b):
        # existential hypotheses are skolemised so that facts about them are used
        bs = []
        stack = [b]
        while stack:
            x = stack.pop()
            if x.op == "and":
                stack.extend(x.a)
            elif x.op == "exists":
                lam = x.a[0]
                (v, e), = lam.a[0]
                nv = T.fresh("ex")
                w = I.var(nv, e)
                bs.append(cmp("<=", I.const(0), w))
                bs.append(cmp("<", w, e))
                stack.append(T.subst(lam.a[1], {v: w}))
            else:
                bs.append(x)
        r, s, tr = sat_inst(self.pc + bs, self.sat_timeout)
        return r

    def decide(self, b):
        b = self.norm(b)
        k = self.known(b)
        if k is not None:
            return k
        gen = [v for v in T.fv(b) if v not in T.POSDIMS and v not in self.consts and not v.startswith("ex_")]
        if gen:
            if self.loopframes and not self.generic and set(gen) == {self.loopframes[-1].k}:
                return LOOPS[0].branch(b)
            raise Unsupported(f"branch on a generic element ({b})")
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = True
            self.forks.append([x for x in self.trace] + [False])
        self.trace.append(d)
        self.nfork += 1
        if self.nfork > 40:
            raise Unsupported("too many branches on one path")
        self.assume(b if d else bnot(b))
        return d

    def choose(self, n):
        """scenario choice: every value is explored on its own path"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = 0
            for k in range(1, n):
                self.forks.append([x for x in self.trace] + [k])
        self.trace.append(d)
        return d

    def in_range(self, s, e):
        key = ("rng", h(s), h(e))
        if key in self.memo:
            return self.memo[key]
        if T.fv(s) and any(v not in T.VAREXT and v not in T.POSDIMS and v not in T.IVARFACTS for v in T.fv(s)):
            r = False
        else:
            b = band(cmp("<=", I.const(0), s), cmp("<", s, e))
            b = self.norm(b)
            if b.op == "true":
                r = True
            elif b.op == "false":
                r = False
            else:
                pcs = [p for p in self.pc if _intonly(p)]
                res, _, _ = smt.check_sat(pcs, [bnot(b)], 800)
                r = res == "unsat"
        self.memo[key] = r
        return r

    def note(self, s):
        self.notes.add(s)


def _intonly(p):
    ok = [True]

    def f(n):
        if n.op in ("el", "ap", "par", "red", "ite", "forall", "exists", "bt"):
            ok[0] = False
    T.walk(p, f)
    return ok[0]


USE_CACHE = [False]
SATCACHE = {}     # cleared at the start of every contract


def sat_inst(assumptions, timeout):
    import time
    import z3
    key = tuple(h(a) for a in assumptions) if USE_CACHE[0] else None
    if key is not None and key in SATCACHE:
        return SATCACHE[key], None, None
    s = z3.Solver()
    s.set("timeout", timeout)
    tr = smt.Tr()
    for a in assumptions:
        s.add(tr.tB(a))
        if a.op == "forall":
            lam = a.a[0]
            (v, e), = lam.a[0]
            tr.univ.append((e, lambda i, lam=lam, v=v: T.subst(lam.a[1], {v: i})))
    tr.drain(s)
    t0 = time.time()
    r = str(s.check())
    smt.STATS["queries"] += 1
    smt.STATS["time"] += time.time() - t0
    smt.STATS[r] = smt.STATS.get(r, 0) + 1
    if key is not None:
        SATCACHE[key] = r
    return r, s, tr


def ctx():
    if Ctx.cur is None:
        Ctx.cur = Ctx()
    return Ctx.cur


T.RANGE_HOOK[0] = lambda s, e: ctx().in_range(s, e)


def prog_raise(exc):
    """raise an exception the modelled library itself would raise"""
    exc._pyvc_real = True
    raise exc


# ----------------------------------------------------------------- scalars

def mkint(x):
    x = I.of(x)
    x = ctx().norm(x)
    c = x.cval()
    return c if c is not None else SymInt(x)


def is_num(x):
    return isinstance(x, (int, float, SymInt, SymReal)) and not isinstance(x, bool) or isinstance(x, (bool, SymBool))


def to_R(x):
    if isinstance(x, SymReal):
        return x.r
    if isinstance(x, SymInt):
        return R.of(x.i)
    if isinstance(x, SymBool):
        return T.ite(x.b, R.const(1), R.const(0))
    if isinstance(x, R):
        return x
    if isinstance(x, I):
        return R.of(x)
    if isinstance(x, N) and T.is_bool(x):
        return T.ite(x, R.const(1), R.const(0))
    if isinstance(x, bool):
        return R.const(int(x))
    if isinstance(x, (int, Fraction)):
        return R.const(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return R.atom(N("c", "inf" if x > 0 else "-inf" if x < 0 else "nan"))
        return R.const(Fraction(repr(x)))
    raise Unsupported("not a number: %r" % type(x))


def to_I(x):
    if isinstance(x, SymInt):
        return x.i
    if isinstance(x, bool):
        return I.const(int(x))
    if isinstance(x, int):
        return I.const(x)
    if isinstance(x, I):
        return x
    if isinstance(x, SymReal):
        r = x.r.as_I()
        if r is not None:
            return r
    if isinstance(x, R):
        r = x.as_I()
        if r is not None:
            return r
    if hasattr(x, "_as_scalar"):
        return to_I(x._as_scalar())
    raise Unsupported("not an integer term: %r" % (x,))


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(self.b)

    def __and__(self, o):
        return mkbool(band(self.b, to_B(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(T.bor(self.b, to_B(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(bnot(self.b))

    def __repr__(self):
        return f"SymBool({self.b})"

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            ob = to_B(o)
            return mkbool(T.bor(band(self.b, ob), band(bnot(self.b), bnot(ob))))
        return SymReal(to_R(self)) == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not (self == o)

    __hash__ = None

    def __add__(self, o):
        return SymReal(to_R(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymReal(to_R(self)) * o

    __rmul__ = __mul__

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self


def to_B(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, N) and T.is_bool(x):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return TRUE if x else FALSE
    if isinstance(x, (SymInt, SymReal)):
        return cmp("!=", x.i if isinstance(x, SymInt) else x.r, I.const(0) if isinstance(x, SymInt) else R.const(0))
    raise Unsupported("not a boolean: %r" % type(x))


def mkbool(b):
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    return SymBool(b)


def _arrlike(o):
    return hasattr(o, "_pyvc_array")


class SymInt:
    """an integer scalar (python int or numpy integer)"""
    _pyvc_num = True

    def __init__(self, i, np=False):
        self.i = I.of(i)
        self.np = np

    def __repr__(self):
        return f"<{self.i}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _bin(self, o, f, rf=None):
        if _arrlike(o):
            return NotImplemented
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, SymInt)):
            return mkint(f(self.i, to_I(o)))
        if isinstance(o, (float, SymReal)):
            return SymReal(f(R.of(self.i), to_R(o)), np=getattr(o, "np", False) or self.np)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and not isinstance(o, str):
            return repeat_list(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if ctx().decide(cmp("<=", I.const(0), self.i)) else -self

    def __truediv__(self, o):
        if _arrlike(o):
            return NotImplemented
        return SymReal(R.of(self.i), np=self.np) / o

    def __rtruediv__(self, o):
        if _arrlike(o):
            return NotImplemented
        return SymReal(to_R(o), np=getattr(o, "np", False)) / self

    def __floordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return mkint(T.i_div(self.i, to_I(o)))
        return NotImplemented

    def __rfloordiv__(self, o):
        return mkint(T.i_div(to_I(o), self.i))

    def __mod__(self, o):
        if isinstance(o, (int, SymInt)):
            return mkint(T.i_mod(self.i, to_I(o)))
        return NotImplemented

    def __rmod__(self, o):
        return mkint(T.i_mod(to_I(o), self.i))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            r = I.const(1)
            for _ in range(k):
                r = r * self.i
            return mkint(r)
        return SymReal(R.of(self.i)) ** k

    def __rpow__(self, b):
        return SymReal(T.ipow(to_R(b), self.i))

    def _cmp(self, o, op):
        if _arrlike(o):
            return NotImplemented
        if isinstance(o, (int, SymInt)):
            return mkbool(ctx().norm(cmp(op, self.i, to_I(o))))
        if isinstance(o, (float, SymReal)):
            if isinstance(o, float) and o in (float("inf"), float("-inf")):
                return (o > 0) == (op in ("<", "<=", "!="))
            return mkbool(ctx().norm(cmp(op, R.of(self.i), to_R(o))))
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(h(self.i))

    def __bool__(self):
        return ctx().decide(cmp("!=", self.i, I.const(0)))

    def __index__(self):
        c = ctx().norm(self.i).cval()
        if c is None:
            raise Unsupported(f"concrete integer needed for {self.i}")
        return c

    def __int__(self):
        c = ctx().norm(self.i).cval()
        return c if c is not None else -987654321    # only reached by %d formatting

    def __getattr__(self, name):
        if name.startswith("_") or not self.np:
            raise AttributeError(name)
        from . import symnp
        return getattr(symnp.from_scalar(self), name)


class SymReal:
    _pyvc_num = True

    def __init__(self, r, np=False):
        self.r = R.of(r)
        self.np = np

    def __repr__(self):
        return f"<{self.r}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _bin(self, o, f):
        if _arrlike(o):
            return NotImplemented
        if isinstance(o, (bool, int, float, SymInt, SymReal, SymBool)):
            return SymReal(f(self.r, to_R(o)), np=self.np or getattr(o, "np", False))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.r, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(r_abs(self.r), self.np)

    def __truediv__(self, o):
        return self._bin(o, r_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: r_div(b, a))

    def __pow__(self, k):
        if _arrlike(k):
            return NotImplemented
        return SymReal(r_power(self.r, to_R(k)), self.np)

    def __rpow__(self, b):
        return SymReal(r_power(to_R(b), self.r), self.np)

    def _cmp(self, o, op):
        if _arrlike(o):
            return NotImplemented
        if isinstance(o, (bool, int, float, SymInt, SymReal)):
            if isinstance(o, float) and o in (float("inf"), float("-inf")):
                from .symnp import inf_cmp
                return mkbool(ctx().norm(inf_cmp(op, self.r, o < 0)))
            return mkbool(ctx().norm(cmp(op, self.r, to_R(o))))
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(h(self.r))

    def __bool__(self):
        return ctx().decide(cmp("!=", self.r, R.const(0)))

    def __index__(self):
        i = ctx().norm(self.r).as_I()
        if i is not None and i.cval() is not None:
            return i.cval()
        raise Unsupported("concrete integer needed")

    def __float__(self):
        c = ctx().norm(self.r).cval()
        if c is None:
            return -987654321.5     # only reached by %f formatting
        return float(c)

    def __int__(self):
        c = ctx().norm(self.r).cval()
        return int(c) if c is not None else -987654321

    def __round__(self, n=0):
        return SymReal(r_round(self.r, n or 0), self.np)

    def __getattr__(self, name):
        if name.startswith("_") or not self.np:
            raise AttributeError(f"'float' object has no attribute '{name}'")
        from . import symnp
        return getattr(symnp.from_scalar(self), name)

    def __getitem__(self, k):
        if not self.np:
            raise TypeError("'float' object is not subscriptable")
        from . import symnp
        return symnp.from_scalar(self)[k]


def r_div(a, b):
    if a == b and not b.is_const():
        ctx().note("divisors are non-zero")
        return R.const(1)
    if b.cval() is None:
        ctx().note("divisors are non-zero")
    return a / b


def r_abs(r):
    c = r.cval()
    if c is not None:
        return R.const(abs(c))
    if T.r_pos(r):
        return r
    # |c*x| = |c| |x| ; |-x| = |x|
    if len(r.t) == 1:
        (c, m), = r.t.values()
        if not m[0] and c != 1:
            return r_abs(r.scale(1 / c)).scale(abs(c))
    else:
        n = -r
        if h(n) < h(r):
            r = n
    return R.atom(N("ap", "abs", r))


def r_power(a, b):
    c = b.cval()
    if c is not None and (c.denominator <= 4):
        return a ** c
    bi = b.as_I()
    if bi is not None:
        return T.ipow(a, bi) if T.r_pos(b) else R.atom(N("ap", "pow", a, b))
    return R.atom(N("ap", "pow", a, b))


def r_round(r, n):
    c = r.cval()
    if c is not None:
        return R.const(round(c, n))
    if len(r.t) == 1:
        (co, (bs, fs)), = r.t.values()
        if not bs and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].op == "ite":
            t = fs[0][0]
            return T.ite(t.a[0], r_round(t.a[1].scale(co), n), r_round(t.a[2].scale(co), n))
    return R.atom(N("ap", f"round{n}", r))


def repeat_list(o, n):
    from . import symnp
    return symnp.repeat_list(o, n)
