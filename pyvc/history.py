"""Exploration of all histories of an object: breadth-first search over the abstract
states of the real object, every step being the symbolic execution of the real method.

After every step an attribute that still depends on an argument no longer in force is
replaced by an arbitrary value of the same shape: the search then covers more than the
real histories, so acceptance is sound.  Two histories lead to the same abstract state when the attributes of the object hold the
same terms up to the names of arguments that are no longer in force.  The search ends
when no new abstract state appears: the obligations then hold after every finite history,
for all argument values and sizes."""
import re
import time
import traceback

from . import terms as T
from . import symnp as S
from . import stubs, loader, smt
from . import ctx as ctxmod
from .ctx import Ctx, Unsupported, PathDone, Infeasible, SymInt, SymReal, SymBool
from .terms import h
from .sym import SymB, PathResult, Obl

NAME = re.compile(r"(?:hs|ho)\d+x")


def sig(v, out, depth=0):
    """canonical description; argument names that occur are appended to out"""
    if v is None or isinstance(v, (bool, int, str)):
        return repr(v)
    if isinstance(v, float):
        return "f" + repr(v)
    if isinstance(v, S.SymArray):
        lm = S.lamN(v)
        out += NAME.findall(T.show(lm)) + [x for s in v._shape for x in NAME.findall(T.show(s))]
        return "arr" + repr([h(s) for s in v._shape]) + v.kind + h(lm)
    if isinstance(v, SymInt):
        return "i" + h(v.i)
    if isinstance(v, SymReal):
        out += NAME.findall(T.show(v.r))
        return "r" + h(v.r)
    if isinstance(v, SymBool):
        out += NAME.findall(T.show(v.b))
        return "b" + h(v.b)
    if isinstance(v, stubs.UserDist):
        out += NAME.findall(v.name)
        return "dist " + v.name
    if isinstance(v, stubs.Frozen):
        return "frozen " + v.name + sig(v._loc, out) + sig(v._scale, out)
    if isinstance(v, stubs.gaussian_kde):
        w = v._w
        out += NAME.findall(v._bw)
        for x in (v._ds, w):
            if x is not None:
                out += NAME.findall(T.show(x))
        return "kde" + v._bw + h(v._ds) + (h(w) if w is not None else "-")
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(sig(x, out, depth + 1) for x in v) + ")"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{sig(v[k], out, depth + 1)}" for k in sorted(v, key=repr)) + "}"
    if callable(v) and hasattr(v, "__name__"):
        return "fn " + v.__name__
    if isinstance(v, stubs.Mod) or type(v).__name__ == "Zero":
        return type(v).__name__
    if depth > 4:
        raise Unsupported("deep object state")
    if hasattr(v, "__dict__"):
        return type(v).__name__ + sig(dict(v.__dict__), out, depth + 1)
    raise Unsupported(f"state of a {type(v).__name__}")


def stale(B, obj, allowed):
    for a, v in list(obj.__dict__.items()):
        if not isinstance(v, (S.SymArray, stubs.UserDist)):
            continue
        if isinstance(v, S.SymArray):
            k = (id(v.buf), id(v.buf.fn))
            if k not in NAMES or NAMES[k][0] is not v.buf.fn:
                out = []
                sig(v, out)
                NAMES[k] = (v.buf.fn, out)
            out = NAMES[k][1]
        else:
            out = []
            sig(v, out)
        if set(out) <= allowed or any(n.startswith("havoc") for n in out):
            continue
        if isinstance(v, S.SymArray):
            if v.kind == "b":
                continue
            obj.__dict__[a] = SymReal(B.array("havoc" + a).r) if not v._shape else \
                S.SymArray(v._shape, B.array("havoc" + a, *v._shape).getter(), v.kind)
        else:
            obj.__dict__[a] = stubs.UserDist("havoc" + a)


NAMES = {}


def explore(start, step, ops, witharg, inforce, budget, maxstates=6000):
    """start(B) -> machine; step(B, machine, op, name, pos) checks obligations;
    machine.obj is the real object; inforce(ops) -> positions of arguments in force.
    returns (path results, why incomplete, number of abstract states)"""
    t0 = time.time()
    results = []
    # sizes and preconditions are the same in every history, names mean the same inputs
    ctxmod.SATCACHE.clear()
    ctxmod.USE_CACHE[0] = True
    try:
        return _explore(start, step, ops, witharg, inforce, budget, maxstates, t0, results)
    finally:
        ctxmod.USE_CACHE[0] = False


def _explore(start, step, ops, witharg, inforce, budget, maxstates, t0, results):

    def execute(seq, naming):
        """all symbolic paths; last step's obligations are kept"""
        work, outs = [[]], []
        while work:
            pre = work.pop()
            T.reset_tables()
            NAMES.clear()
            cx = Ctx(pre, "history")
            Ctx.cur = cx
            res = PathResult()
            key, names = None, []
            try:
                B = SymB(res, budget)
                m = start(B)
                for pos, op in enumerate(seq):
                    if pos == len(seq) - 1:
                        res.obls.clear()
                    step(B, m, op, naming(pos), pos)
                    stale(B, m.obj, {naming(p) for p in inforce(seq[:pos + 1])})
                key = sig(dict(m.obj.__dict__), names)
            except PathDone:
                pass
            except Infeasible:
                res.status = "infeasible"
            except Unsupported as e:
                res.status, res.why = "unsupported", str(e)[:400]
            except T.TermLimit:
                res.status, res.why = "unsupported", "term size limit"
            except Exception as e:
                res.status = "unsupported"
                res.why = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300]
            res.notes = set(cx.notes)
            res.decisions = list(cx.trace)
            res.pc = [str(p)[:200] for p in cx.pc]
            res.choices = {"length": len(seq), **{f"op{i}": o for i, o in enumerate(seq)}}
            res.pcn = len(cx.trace)
            work.extend(cx.forks)
            outs.append((res, key, names))
            if len(outs) > 8:
                res.status, res.why = "unsupported", "too many branches in a history"
                break
        Ctx.cur = None
        return outs

    def canon(seq):
        live = inforce(seq)
        first = {}
        k = 0
        for p in range(len(seq) - 1, -1, -1):
            if p in live:
                first[p] = f"hs{live[p]}x"
            elif seq[p] in witharg:
                first[p] = f"ho{k}x"
                k += 1
        outs = execute(seq, lambda p: first.get(p, f"hz{p}x"))
        names = set()
        for _, _, n in outs:
            names |= set(n)
        order = {}
        k = 0
        for p in range(len(seq) - 1, -1, -1):
            if p in live:
                order[p] = f"hs{live[p]}x"
            elif first.get(p) in names:
                order[p] = f"ho{k}x"
                k += 1
        if all(first[p] == n for p, n in order.items()):
            return outs, outs
        outs2 = execute(seq, lambda p: order.get(p, f"hz{p}x"))
        return outs, outs2
    seen = {}
    todo = [()]
    bad = 0
    first = True
    while todo:
        if time.time() - t0 > budget or len(seen) > maxstates:
            return results, f"histories: {len(seen)} abstract states explored, frontier not empty", len(seen)
        seq = todo.pop(0)
        for op in ([None] if first else ops):
            s2 = seq if op is None else seq + (op,)
            outs, outs2 = canon(s2)
            for (res, _, _), (_, key, _) in zip(outs, outs2):
                results.append(res)
                if any(o.verdict != "proved" for o in res.obls):
                    bad += 1
                    continue
                if res.status != "done":
                    if res.status == "unsupported" and len(results) > 400:
                        return results, res.why, len(seen)
                    continue
                if key is None:
                    continue
                if key not in seen:
                    seen[key] = s2
                    todo.append(s2)
            if bad > 5:
                return results, "stopped after failed obligations", len(seen)
        first = False
    return results, None, len(seen)
