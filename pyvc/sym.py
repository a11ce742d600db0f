"""Symbolic backend: runs a contract against the real code on symbolic inputs and
discharges its obligations on every path."""
import time
import traceback

from . import terms as T
from . import smt
from . import symnp as S
from . import stubs
from . import loader
from . import loops
from .terms import I, R, N, h, cmp, band, bnot, bor
from .contract import Outcome
from .ctx import (Ctx, ctx, Unsupported, PathDone, Infeasible, SymInt, SymReal, SymBool, mkint, mkbool,
                  to_R, to_I, to_B, is_num)


class Obl:
    def __init__(self, label, verdict, backend, detail="", model=None):
        self.label, self.verdict, self.backend, self.detail, self.model = label, verdict, backend, detail, model


class PathResult:
    def __init__(self):
        self.obls = []
        self.choices = {}
        self.status = "done"      # done / unsupported / infeasible
        self.why = ""
        self.notes = set()
        self.decisions = []
        self.dims = {}


class SymB:
    symbolic = True

    def __init__(self, res, budget):
        self.res = res
        self.world = loader.World()
        self.np = self.world.ext["numpy"]
        self.stats = self.world.ext["scipy.stats"]
        self._mod = {}
        self.budget = budget
        self.dims = {}
        self.pre, self.mute, self.chosen = "", False, {}

    def rehearse(self, fn):
        """runs the scenario with other arrays of the same shapes and without obligations; then starts over"""
        cx = ctx()
        state = (list(cx.files.items()), cx.rng, cx.rngpos)
        self.pre, self.mute = "earlier'", True
        try:
            fn(self)
        except (PathDone, Infeasible):
            pass
        self.pre, self.mute = "", False
        cx.files = dict(state[0])
        cx.rng, cx.rngpos = state[1:]
        cx.events = loops.PList()

    # -- the code
    def mud(self, name):
        return self.world.load("mud." + name if name else "mud")

    def assume_separated(self, X, k):
        """numeric runs only: the first k singular values are simple (principal directions are
        determined up to sign)"""

    def spread(self, y):
        """numeric runs only: density estimates need samples that do not lie in a subspace"""

    def same_sign(self, vec, got):
        return vec

    def callee(self, mod, name, fn):
        """callers are checked against this contract of the function, not its body"""
        f = getattr(self.mud(mod), name)
        for m in self.world.mods.values():
            if getattr(m, name, None) is f:
                setattr(m, name, fn)
        ctx().note(f"mud.{mod}.{name} by its contract")

    def pickled(self, obj):
        """the name of a file that holds obj"""
        fs = ctx().files
        fs["/tmp/pyvc/file%d" % len(fs)] = obj
        return "/tmp/pyvc/file%d" % (len(fs) - 1)

    def no_file(self):
        return "/tmp/pyvc/missing"

    def lib(self, name):
        """a library module the code under contract uses (here: its assumed contract)"""
        return self.world.ext[name]

    # -- inputs
    def well(self, *mats, lim=None):
        pass

    def same(self, a, b):
        """equal by normalisation"""
        return (to_R(_sc(a)) - to_R(_sc(b))).cval() == 0

    def recorded_axes(self):
        """figures and axes the code creates itself are recorded under the names fig, ax"""

    def recorded_limits(self):
        return stubs.limits("y")

    def recorder(self, name):
        return stubs.Recorder(name)

    def dim(self, name, lo=1, hi=None, num=None):
        v = I.var(name)
        ctx().consts.add(name)
        facts = [cmp("<=", I.const(lo), v)]
        if hi is not None:
            facts.append(cmp("<=", v, I.of(to_I(hi))))
        T.IVARFACTS[name] = facts
        if lo >= 1:
            T.POSDIMS.add(name)
        self.dims[name] = v
        if lo > 1 or hi is not None:
            for f in facts:
                ctx().assume(f)
        elif lo < 1:
            ctx().assume(facts[0])
        return mkint(v)

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        v = I.var(name)
        n = to_I(n)
        T.VAREXT[name] = n
        T.IVARFACTS[name] = [cmp("<=", I.const(0), v), cmp("<", v, n)]
        ctx().consts.add(name)
        self.dims[name] = v
        ctx().assume(T.IVARFACTS[name][0])
        ctx().assume(T.IVARFACTS[name][1])
        if ctx().norm(n).cval() == 1:
            ctx().assume(cmp("==", v, I.const(0)))
            return 0
        return mkint(v)

    def array(self, name, *shape, sym=False, pos=False, nonneg=False, lo=None, hi=None, graded=False, real=False):
        name = self.pre + name
        t = N("ts", name)
        fl = {}
        if sym:
            fl["sym"] = True
        if pos:
            fl["pos"] = True
        if nonneg:
            fl["nonneg"] = True
        if fl:
            T.TENSOR[name] = fl
        shape = tuple(to_I(s) for s in shape)
        if len(shape) == 0:
            return SymReal(R.atom(N("ts", name)))
        if self.integers and not (fl or real or graded or lo is not None or hi is not None):
            return S.SymArray(shape, lambda i: R.atom(N("el", t, *i)), "i")
        return S.SymArray(shape, lambda i: R.atom(N("el", t, *i)), "f")

    integers = bool(__import__("os").environ.get("PYVC_INTS"))

    def spd(self, name, n):
        return self.array(name, n, n, sym=True)

    def int_array(self, name, *shape):
        name = self.pre + name
        t = N("ts", name)
        return S.SymArray(tuple(to_I(s) for s in shape), lambda i: R.of(I.atom(N("ia", "intarr", t, *i))), "i")

    def idx_array(self, name, n, bound):
        """an integer array of length n with values in [0, bound)"""
        name = self.pre + name
        t = N("ts", name)
        b = to_I(bound)
        return S.SymArray((to_I(n),), lambda i: R.of(I.atom(N("ia", "idxarr", t, b, i[0]))), "i")

    def idx_arrays(self, name, n, bound):
        """a list of any length of non-empty integer arrays of any sizes with values in [0, bound)"""
        name = self.pre + name
        t, tn, b = N("ts", name), N("ts", name + "'len"), to_I(bound)

        def get(k):
            return S.SymArray((I.atom(N("ia", "size", tn, k)),), lambda i: R.of(I.atom(N("ia", "idxarr", t, b, k, i[0]))), "i")
        p = loops.PList()
        p._set([loops.Seg(n=to_I(n), get=get)])
        return p

    def increasing_idx(self, name, n, bound):
        return self.idx_array(name, n, bound)

    def bool_array(self, name, *shape):
        name = self.pre + name
        t = N("ts", name)
        return S.SymArray(tuple(to_I(s) for s in shape), lambda i: cmp("<", R.const(0), R.atom(N("el", t, *i))), "b")

    def real(self, name, pos=False, nonneg=False, nonzero=False):
        name = self.pre + name
        if pos:
            T.TENSOR[name] = {"pos": True}
        r = SymReal(R.atom(N("ts", name)))
        if nonneg:
            ctx().assume(cmp("<=", R.const(0), r.r))
        return r

    def dist(self, name, bycol=True, pos=False):
        """an arbitrary distribution-like object; pos: its density is positive everywhere"""
        name = self.pre + name
        return stubs.UserDist(name, bycol, pos)

    def arrays(self, name, n, *shape):
        """a list of any length of arbitrary arrays"""
        name = self.pre + name
        n = to_I(n)
        c = ctx().norm(n).cval()
        if c is not None:
            return loops.mklist([self.array(f"{name}{k}", *shape) for k in range(c)])
        sh = tuple(to_I(s) for s in shape)
        t = N("ts", name)
        p = loops.PList()
        p._set([loops.Seg(n=n, get=lambda k: S.SymArray(sh, lambda i: R.atom(N("el", t, k, *i)), "f"))])
        return p

    def as_list(self, a):
        """the entries of an array of any length as a python list"""
        n = a.shape[0]
        c = ctx().norm(to_I(n)).cval()
        if c is not None:
            return loops.mklist([a[k] for k in range(c)])
        p = loops.PList()
        p._set([loops.Seg(n=to_I(n), get=lambda k: a[SymInt(k)])])
        return p

    def ragged(self, name, n, *shape, lo=1, pos=False):
        """a list of any length of arrays of shape (size, *shape), size >= lo its own for each (the same for each family of the same n)"""
        name = self.pre + name
        t, n, sh = N("ts", name), to_I(n), tuple(to_I(s) for s in shape)
        if pos:
            T.TENSOR[name] = {"pos": True}
        p = loops.PList()
        p._set([loops.Seg(n=n, get=lambda k: S.SymArray((I.atom(N("ia", "size", n, k)) + I.const(lo - 1),) + sh, lambda i: R.atom(N("el", t, k, *i)), "f"))])
        return p

    def fun(self, name, *xs):
        """an arbitrary function of real arguments"""
        name = self.pre + name
        return SymReal(R.atom(N("ap", "fun:" + name, *[to_R(_sc(x)) for x in xs])))

    def frozen(self, kind, loc, scale):
        return getattr(self.stats, kind)(loc=loc, scale=scale)

    def havoc(self, L):
        """replaces every array of the list by an arbitrary one of its shape: what follows holds for any such list"""
        if getattr(L, "sg", None) is not None:
            n = loops.seg_len(L.sg)
            L._set([loops.Seg(n=n, get=self._havoced(loops.segs_get(L.sg, I.var(T.fresh("hv"), n)), ()))])
            return
        for k in range(len(L)):
            if isinstance(L[k], list):
                self.havoc(L[k])
            else:
                L[k] = self.array(T.fresh("hv"), *L[k].shape)

    def _havoced(self, x, pre):
        """k -> an arbitrary value of the shape of x, for every k"""
        if isinstance(x, S.SymArray):
            t = N("ts", T.fresh("hv"))
            return lambda k: S.SymArray(x._shape, lambda i: R.atom(N("el", t, *pre, k, *i)), "f")
        sg = loops.segs_of(x)
        n = loops.seg_len(sg)

        def mk(k):
            key = h(k)
            if key not in memo:
                p = loops.PList()
                p._set([loops.Seg(n=n, get=kid(k))])
                memo[key] = p
            return memo[key]
        memo = {}
        y = sg[0].samples()[0]
        if not isinstance(y, S.SymArray):
            raise Unsupported("havoc of nested lists")
        t = N("ts", T.fresh("hv"))

        def kid(k):
            return lambda j: S.SymArray(y._shape, lambda i: R.atom(N("el", t, *pre, k, j, *i)), "f")
        return mk

    def lst(self, a):
        """the same data as a (nested) python list: only for concrete extents"""
        return a

    def choice(self, label, opts):
        opts = list(opts)
        k = self.chosen.get((label, len(opts))) if not self.mute else None
        if k is None:
            k = ctx().choose(len(opts)) if len(opts) > 1 else 0
            self.chosen[label, len(opts)] = k
        self.res.choices[label] = _show(opts[k])
        return opts[k]

    def assume(self, cond):
        ctx().assume(to_B(cond) if not isinstance(cond, S.SymArray) else to_B(S.np_all(cond)))

    def assume_valid(self, cond):
        return self.assume(cond)

    def seed(self, s):
        S.rng_seed(s)

    def rng_draw(self, *shape):
        return S.rng_randn(*shape)

    # -- quantified spec helpers
    def sum(self, n, f):
        v = T.fresh("s")
        e = ctx().norm(to_I(n))
        body = f(SymInt(I.var(v, e)))
        return SymReal(T.r_sum(v, e, to_R(_sc(body))))

    def prod(self, n, f):
        v = T.fresh("s")
        e = ctx().norm(to_I(n))
        return SymReal(T.r_red("prod", v, e, to_R(_sc(f(SymInt(I.var(v, e)))))))

    def forall(self, n, f):
        v = T.fresh("q")
        e = ctx().norm(to_I(n))
        return mkbool(T.forall(v, e, to_B(_sc(f(SymInt(I.var(v, e)))))))

    def exists(self, n, f):
        v = T.fresh("q")
        e = ctx().norm(to_I(n))
        return mkbool(T.exists(v, e, to_B(_sc(f(SymInt(I.var(v, e)))))))

    def table(self, shape, f):
        """array given elementwise"""
        shape = tuple(to_I(s) for s in shape)
        return S.SymArray(shape, lambda i: to_R(_sc(f(*[SymInt(k) if k.cval() is None else k.cval() for k in i]))), "f")

    def selected(self, n, mask):
        """what a mask (None, indices or booleans) selects out of n entries: number, function from position to index"""
        if mask is None:
            return mkint(to_I(n)), lambda j: j
        if mask.kind == "b":
            cnt, f = S.mask_select(mask)
            return mkint(cnt), lambda j: mkint(f(to_I(j)))
        return mask.shape[0], lambda j: self.el(mask, j)

    def length(self, L):
        from .loader import b_len
        return b_len(L)

    def item(self, L, k):
        return L[k]

    def el(self, a, *idx):
        """element of an array (no bound checks: the index is in range by assumption)"""
        if not isinstance(a, S.SymArray):
            return a
        return S.wrap_scalar(a.at(*[to_I(i) for i in idx]), a.kind)

    def lor(self, a, b):
        return mkbool(bor(to_B(a), to_B(b)))

    def land(self, *xs):
        return mkbool(band(*[to_B(x) for x in xs]))

    def lnot(self, a):
        return mkbool(bnot(to_B(a)))

    def implies(self, a, b):
        return mkbool(bor(bnot(to_B(a)), to_B(b)))

    def ite(self, c, a, b):
        return SymReal(T.ite(to_B(c), to_R(_sc(a)), to_R(_sc(b))))

    def sqrt(self, x):
        return SymReal(to_R(x) ** T.HALF)

    def log(self, x):
        return SymReal(S.r_fun("log")(to_R(x)))

    def is_true(self, c):
        """case split"""
        return bool(c)

    # -- running the code
    def call(self, f, /, *a, **k):
        try:
            v = f(*a, **k)
            return Outcome(value=v)
        except Exception as e:
            if loader.engine_error(e):
                raise Unsupported("engine: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + _where(e))
            return Outcome(exc=e)

    def get(self, o, label):
        """value of an outcome that must be normal"""
        if o.exc is not None:
            self.fail(label + ": returns normally", f"raises {type(o.exc).__name__}: {str(o.exc)[:200]}")
            raise PathDone()
        return o.value

    def run(self, label, f, /, *a, **k):
        return self.get(self.call(f, *a, **k), label)

    # -- obligations
    def _add(self, label, verdict, backend, detail="", model=None):
        if not self.mute:
            self.res.obls.append(Obl(label, verdict, backend, detail, model))

    def ok(self, label, backend="evaluation"):
        self._add(label, "proved", backend)

    def fail(self, label, detail=""):
        if self.mute:
            return
        # only a failure if the path is feasible
        c = ctx()
        r = c._sat(T.TRUE)
        if r == "unsat" or (c.pc and smt.prove1(list(c.pc), T.FALSE)[0] == "proved"):
            raise Infeasible()
        self._add(label, "refuted", "z3" if c.pc else "evaluation", detail)

    def ensure(self, cond, label):
        """cond: bool, SymBool, or boolean array"""
        if isinstance(cond, S.SymArray):
            cond = S.np_all(cond)
        if isinstance(cond, bool) or isinstance(cond, int):
            return self.ok(label) if cond else self.fail(label, "evaluates to False")
        self._prove(to_B(cond), label)

    def _prove(self, goal, label):
        if self.mute:
            return
        c = ctx()
        goal = c.norm(goal)
        v, be, m = smt.prove(c.pc, goal, timeout=6000)
        if v == "unknown":
            v, be, m = smt.prove(c.pc, goal, timeout=30000)
        if v != "proved":
            g = T.peel_goal(goal, lambda e: bool(loops._known(cmp("<=", I.const(0), e))))
            if h(g) != h(goal):
                v2, be2, _m = smt.prove(c.pc, c.norm(g), timeout=6000)
                if v2 == "proved":
                    v, be, m = v2, be2, None
        if v != "proved" and c.seqs:
            # by the definitions of the sequences a few iterations back
            g = goal
            for _ in range(3):
                g2 = loops.resolve(loops.decided(g), True)
                if h(g2) == h(g):
                    break
                g = g2
                v2, be2, _m = smt.prove(c.pc, g, timeout=6000)
                if v2 == "proved":
                    v, be, m = v2, be2, None
                    break
            if v != "proved" and loops.same_sequences():
                v2, be2, _m = smt.prove(c.pc, c.norm(goal), timeout=6000)
                if v2 == "proved":
                    v, be, m = v2, be2, None
            if v != "proved" and loops.undefined(goal):
                raise Unsupported("a result of a loop left by an exception")
            if v != "proved" and loops.recursive(goal):
                raise Unsupported("a result of a loop that the rule has no closed form for: %s: %s" % (label, str(goal)[:int(__import__("os").environ.get("GLEN","200"))]))
        det = ""
        if v != "proved":
            det = str(goal)[:6000]
        self._add(label, v, be, det, _dims_from(m, self.dims) if m is not None else None)

    def raises(self, o, label, types=Exception):
        if o.exc is None:
            return self.fail(label, "returns normally")
        if not isinstance(o.exc, types):
            return self.fail(label, f"raises {type(o.exc).__name__}: {o.exc}")
        self.ok(label)

    def eq(self, a, b, label, tol=None):
        """equality of scalars, arrays, lists, None, strings"""
        if self.mute:
            return
        c = ctx()
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.ok(label) if (a is b or a == b) else self.fail(label, f"{a!r} vs {b!r}")
        if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
            x, y = to_B(a), to_B(b)
            return self._prove(bor(band(x, y), band(bnot(x), bnot(y))), label)
        a, b = _arr(a), _arr(b)
        if a.ndim != b.ndim:
            return self.fail(label + " (rank)", f"shape {a.shape} expected {b.shape}")
        for x, y in zip(a._shape, b._shape):
            x, y = c.norm(x), c.norm(y)
            if x != y:
                v, be, m = smt.prove(c.pc, cmp("==", x, y))
                if v != "proved":
                    self._add(label + " (shape)", v, be, f"shape {a.shape} expected {b.shape}")
                    return
        idx = []
        for k, s in enumerate(a._shape):
            s = c.norm(s)
            if s.cval() == 1:
                idx.append(I.const(0))
                continue
            nv = T.fresh("sk_i")
            T.VAREXT[nv] = s
            idx.append(I.var(nv, s))
        self.cells(a, b, tuple(idx), label)

    def cells(self, a, b, idx, label):
        if self.mute:
            return
        c = ctx()
        x, y = c.norm(a.getter()(idx)), c.norm(b.getter()(idx))
        if a.kind == "b" or b.kind == "b":
            x, y = to_B(x) if not isinstance(x, R) else x, y
            if isinstance(x, R) or isinstance(y, R):
                return self._prove(cmp("==", to_R(x), to_R(y)), label)
            return self._prove(bor(band(x, y), band(bnot(x), bnot(y))), label)
        self._prove(cmp("==", to_R(x), to_R(y)), label)

    def shape_is(self, a, shape, label):
        a = _arr(a)
        if a.ndim != len(shape):
            return self.fail(label, f"rank {a.ndim}, expected {len(shape)}")
        c = ctx()
        g = band(*[cmp("==", c.norm(x), c.norm(to_I(y))) for x, y in zip(a._shape, shape)])
        self._prove(g, label)

    # -- frame conditions
    def freeze(self, *arrs):
        return [(x, x.buf, x.buf.fn, x.copy(), x._shape) for x in arrs if isinstance(x, S.SymArray)]

    def unchanged(self, frozen, label):
        label = "frame: " + label
        for x, buf, fn, cp, shp in frozen:
            if x.buf is buf and buf.fn is fn and x._shape == shp:
                self.ok(label, "frame")
            else:
                self.eq(x, cp, label)

    def no_alias(self, a, b, label):
        if not (isinstance(a, S.SymArray) and isinstance(b, S.SymArray)):
            return self.ok(label, "frame")
        if a.buf is b.buf:
            return self.fail(label, "shares memory")
        self.ok(label, "frame")

    def events(self):
        return ctx().events

    def calls(self, name):
        """the recorded calls of that name (see num.calls)"""
        if name.startswith("*"):
            return loops.select(ctx().events, lambda e: e[0] == "call" and e[1].rsplit(".", 1)[-1] == name[2:])
        return loops.select(ctx().events, lambda e: e[0] == "call" and e[1] == name)

    def unsupported(self, why):
        raise Unsupported(why)

    def known(self, c):
        if isinstance(c, bool):
            return c
        return ctx().known(to_B(c))


def _sc(x):
    return x._as_scalar() if isinstance(x, S.SymArray) else x


def _arr(x):
    return S.asarray(x)


def _show(o):
    return o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)


def _where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        out.append(f"{tb.tb_frame.f_code.co_filename.rsplit('/',1)[-1]}:{tb.tb_lineno}")
        tb = tb.tb_next
    return " > ".join(out[-4:])


def _dims_from(m, dims):
    import z3
    out = {}
    for n in dims:
        try:
            v = m.eval(z3.Int(n), model_completion=True)
            out[n] = v.as_long()
        except Exception:
            pass
    return out


def run_contract(c, budget=60, maxpaths=600):
    """-> list of PathResult"""
    import sys
    sys.setrecursionlimit(20000)
    if getattr(c, "custom", None):
        out, inc, states = c.custom(budget)
        c.states = states
        return out, inc
    work = [[]]
    out = []
    dropped = {}
    t0 = time.time()
    incomplete = None
    while work:
        if len(out) >= maxpaths or time.time() - t0 > budget:
            incomplete = f"path budget exhausted after {len(out)} paths, {time.time()-t0:.0f}s"
            break
        pre = work.pop()
        T.reset_tables()
        cx = Ctx(pre, c.name)
        Ctx.cur = cx
        res = PathResult()
        try:
            B = SymB(res, budget)
            c.fn(B)
        except PathDone:
            pass
        except Infeasible:
            res.status = "infeasible"
        except loops.Dropped:
            res.status = "infeasible"
        except Unsupported as e:
            res.status, res.why = "unsupported", str(e)[:1600]
        except T.TermLimit as e:
            res.status, res.why = "unsupported", "term size limit"
        except (RecursionError, MemoryError) as e:
            res.status, res.why = "unsupported", type(e).__name__
        except Exception as e:
            if loader.engine_error(e):
                res.status = "unsupported"
                res.why = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300] + " @ " + _where(e)
            else:
                # an exception of the code escaped through a spec expression
                res.status = "unsupported"
                res.why = "spec: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300] + " @ " + _where(e)
        for key, d in cx.dropped:
            dropped.setdefault(key, set()).add(d)
            if len(dropped[key]) == 2:
                res.status, res.why = "unsupported", "a branch that differs between iterations of a loop"
        res.notes = set(cx.notes)
        res.decisions = list(cx.trace)
        res.pc = [str(p)[:200] for p in cx.pc]
        work.extend(cx.forks)
        out.append(res)
        Ctx.cur = None
    return out, incomplete
