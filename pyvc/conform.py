"""Do the trusted parts behave like what they stand for?

The library contracts (symnp, stubs) and the interpreter's rules (loops, comprehensions, lists,
views) are assumptions of every proof.  Here they are compared with the real thing: the programs of
conform/progs.py run once symbolically, for arrays of symbolic sizes, and once on numpy; on random
sizes and values the symbolic result, evaluated, has to be what numpy computed (same shape, same
values, an exception where numpy raises).  A bounded test of the assumptions, no part of any proof.

    python3-vt -m pyvc.conform [trials [name ...]]
"""
import inspect
import itertools
import json
import os
import random
import sys
import time
import types

import numpy as np

from . import terms as T
from . import symnp as S
from . import loops, loader, sym, ctx as C
from .contract import Contract
from .ctx import SymInt, SymReal, SymBool, Ctx
from .terms import I, R, N, h

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "conform")
PROGS = os.path.join(HERE, "progs.py")


class Cannot(Exception):
    pass


class Ev:
    """value of a term under an assignment"""

    def __init__(self, env, tensors, cx):
        self.env, self.ten, self.cx = env, tensors, cx
        self.memo = {}

    # env: index variables -> int
    def i(self, x, env):
        tot = 0
        for c, at in x.t.values():
            p = c
            for n in at:
                p *= self.ia(n, env)
            tot += p
        return tot

    def ia(self, n, env):
        if n.op == "iv":
            if n.a[0] not in env:
                raise Cannot("free variable " + n.a[0])
            return env[n.a[0]]
        f = n.a[0]
        if f == "ite":
            return self.i(n.a[2], env) if self.b(n.a[1], env) else self.i(n.a[3], env)
        if f == "div":
            return self.i(n.a[1], env) // self.i(n.a[2], env)
        if f == "mod":
            return self.i(n.a[1], env) % self.i(n.a[2], env)
        if f == "rank":
            (v, e), = n.a[1].a[0]
            return sum(self.b(n.a[1].a[1], {**env, v: j}) for j in range(self.i(n.a[2], env)))
        if f in ("count", "nth"):
            (v, e), = n.a[1].a[0]
            hit = [j for j in range(self.i(e, env)) if self.b(n.a[1].a[1], {**env, v: j})]
            if f == "count":
                return len(hit)
            j = self.i(n.a[2], env)
            if not 0 <= j < len(hit):
                raise Cannot("nth out of range")
            return hit[j]
        if f in ("argmax", "argmin"):
            (v, e), = n.a[1].a[0]
            vals = [self.r(n.a[1].a[1], {**env, v: j}) for j in range(self.i(e, env))]
            return int(getattr(np, f)(vals))
        if f == "size":
            return len(self.ten[n.a[1].a[0][:-4]][self.i(n.a[2], env)]) if len(n.a) > 2 else 0
        if f in ("intarr", "idxarr"):
            idx = [self.i(y, env) for y in n.a[2 if f == "intarr" else 3:]]
            t = self.ten[n.a[1].a[0]]
            for j in idx:
                t = t[j]
            return int(t)
        if f == "sq":
            v = self.seq(n.a[1].a[0], [self.i(y, env) for y in n.a[2:]])
            if v != int(v):
                raise Cannot("non-integer")
            return int(v)
        raise Cannot("integer " + f)

    def seq(self, name, args):
        s = self.cx.seqs.get(name)
        if s is None:
            raise Cannot("unknown sequence")
        key = (name, tuple(args))
        if key in self.memo:
            return self.memo[key]
        no = len(s.outer)
        outer, p, idx = args[:no], args[no], args[no + 1:]
        env = {**self.env, **dict(zip(s.outer, outer)), **dict(zip(s.idx, idx))}
        if s.alias is not None:
            v = self.seq(s.alias.name, args)
        elif s.base is None:
            raise Cannot("undefined sequence")
        elif p == 0 and not (s.closed is not None and s.absorbed):
            v = self.r(s.base, env)
        else:
            v = self.r(s.closed if s.closed is not None else s.step, {**env, s.k: p - 1})
        self.memo[key] = v
        return v

    def r(self, x, env):
        tot = 0.0
        for c, (bs, fs) in x.t.values():
            tot += float(c) * self.mono(list(bs), fs, env)
        return tot

    def mono(self, bs, fs, env):
        if not bs:
            p = 1.0
            for n, q in fs:
                v = self.atom(n, env)
                if q < 0 and v == 0:
                    raise Cannot("division by zero")
                if q.denominator != 1 and v < 0:
                    if v < -1e-9:
                        raise Cannot("root of a negative number")
                    v = 0.0
                p *= v ** (int(q) if q.denominator == 1 else float(q))
            return p
        (v, e), rest = bs[0], bs[1:]
        return sum(self.mono(rest, fs, {**env, v: j}) for j in range(self.i(e, env)))

    def lam(self, l, env):
        exts = [self.i(e, env) for _, e in l.a[0]]
        out = np.empty(exts)
        for ix in itertools.product(*map(range, exts)):
            out[ix] = self.r(l.a[1], {**env, **{v: j for (v, _), j in zip(l.a[0], ix)}})
        return out

    def op(self, n, env):
        name = n.a[0]
        l = n.a[-1]
        key = (h(n), tuple(sorted((v, env.get(v)) for v in T.fv(n))))
        if key in self.memo:
            return self.memo[key]
        A = self.lam(l, env)
        if name in ("inv", "pinv"):
            if name == "inv" and (A.shape[0] and abs(np.linalg.det(A)) < 1e-9):
                raise Cannot("singular")
            v = getattr(np.linalg, name)(A)
        elif name.startswith("pinv_cut"):
            v = np.linalg.pinv(A, float(name[8:]))
        elif name in ("svd_u", "svd_s", "svd_vt"):
            v = np.linalg.svd(A)[("svd_u", "svd_s", "svd_vt").index(name)]
        else:
            raise Cannot("op " + name)
        self.memo[key] = v
        return v

    def atom(self, n, env):
        op = n.op
        if op == "ri":
            return float(self.ia(n.a[0], env))
        if op == "ts":
            return float(self.ten[n.a[0]])
        if op == "el":
            t = n.a[0]
            idx = [self.i(y, env) for y in n.a[1:]]
            if t.op == "op":
                v = self.op(t, env)
            elif t.a[0].startswith("seq~"):
                return self.seq(t.a[0], idx)
            else:
                v = self.ten.get(t.a[0])
                if v is None:
                    raise Cannot("tensor " + t.a[0])
            if any(j < 0 or j >= d for j, d in zip(idx, np.shape(v))):
                raise Cannot("index out of range")
            for j in idx:
                v = v[j]
            return float(v)
        if op == "par":
            return self.r(n.a[0], env)
        if op == "ite":
            return self.r(n.a[1], env) if self.b(n.a[0], env) else self.r(n.a[2], env)
        if op == "del":
            return float(self.i(n.a[0], env) == self.i(n.a[1], env))
        if op == "c":
            return {"pi": np.pi, "inf": np.inf, "-inf": -np.inf, "nan": np.nan}[n.a[0]]
        if op == "red":
            kind, l = n.a
            vals = self.lam(l, env)
            if kind == "prod":
                return float(np.prod(vals))
            if vals.size == 0:
                raise Cannot("empty reduction")
            return float(vals.max() if kind == "max" else vals.min())
        if op == "ap":
            f = n.a[0]
            a = [self.r(y, env) if isinstance(y, R) else self.i(y, env) for y in n.a[1:] if isinstance(y, (R, I))]
            if f == "ipow":
                return a[0] ** a[1]
            if f in ("float32", "float16"):
                return float(getattr(np, f)(a[0]))
            if f == "trunc":
                return float(np.trunc(a[0]))
            if f.startswith("round"):
                return float(np.round(a[0], int(f[5:] or 0)))
            if f in ("exp", "log", "sin", "cos", "tan", "arctan", "floor", "abs", "log10"):
                return float(getattr(np, f)(a[0]))
            if f == "pospdf:norm":
                return float(np.exp(-a[0] / 2) / np.sqrt(2 * np.pi))
            if f.startswith(("pospdf:", "cdf:", "ppf:")):
                import scipy.stats
                kind, nm = f.replace("pospdf", "pdf").split(":")
                if hasattr(scipy.stats, nm):
                    return float(getattr(getattr(scipy.stats, nm), kind)(a[0]))
            if f in ("erf", "erfinv"):
                import scipy.special
                return float(getattr(scipy.special, f)(a[0]))
            if f == "pow":
                return float(a[0] ** a[1])
            raise Cannot("function " + f)
        raise Cannot("atom " + op)

    def b(self, n, env):
        op = n.op
        if op in ("true", "false"):
            return op == "true"
        if op == "cmp":
            d = n.a[1]
            v = self.i(d, env) if isinstance(d, I) else self.r(d, env)
            if not isinstance(d, I) and n.a[0] == "==" and v != 0 and abs(v) < 1e-9:
                raise Cannot("close call")
            return v < 0 if n.a[0] == "<" else v <= 0 if n.a[0] == "<=" else v == 0
        if op == "and":
            return all(self.b(y, env) for y in n.a)
        if op == "or":
            return any(self.b(y, env) for y in n.a)
        if op == "not":
            return not self.b(n.a[0], env)
        if op in ("forall", "exists"):
            (v, e), = n.a[0].a[0]
            g = (self.b(n.a[0].a[1], {**env, v: j}) for j in range(self.i(e, env)))
            return all(g) if op == "forall" else any(g)
        raise Cannot("condition " + op)


# ------------------------------------------------------------------ running

def params(fn):
    """name -> (kind, dims) from the defaults:  A="n,m"   k="#n" (the size itself)   +  positive   ! integers
    ?  booleans   @n:k  indices below n   s  symmetric positive definite   =  a number"""
    out = {}
    for nm, p in inspect.signature(fn).parameters.items():
        s = p.default
        kind = "f"
        if s[:1] and s[0] in "+!?@#s=*":
            kind, s = s[0], s[1:]
        out[nm] = (kind, s)
    return out


DIMS = "nmkpq"


def dims_in(ps):
    ds = set()
    for kind, s in ps.values():
        for t in s.replace(":", ",").replace("*", ",").split(","):
            if t.strip() in list(DIMS) and t.strip():
                ds.add(t.strip())
    return sorted(ds)


def size(tok, env, mul):
    v = None
    for t in tok.split("*"):
        w = env[t] if t in env else int(t)
        v = w if v is None else v * w
    return v


def sym_args(B, ps):
    d = {x: B.dim(x, lo=1) for x in dims_in(ps)}
    out = []
    for nm, (kind, s) in ps.items():
        if kind == "#":
            out.append(d[s])
        elif kind == "@":
            bound, cnt = s.split(":")
            out.append(B.idx_array(nm, size(cnt, d, 0), size(bound, d, 0)))
        else:
            sh = tuple(size(t, d, 0) for t in s.split(",") if t)
            if kind == "!":
                out.append(B.int_array(nm, *sh))
            elif kind == "?":
                out.append(B.bool_array(nm, *sh))
            elif kind == "s":
                out.append(B.spd(nm, sh[0]))
            elif kind == "*":
                out.append(B.arrays(nm, sh[0], *sh[1:]))
            else:
                out.append(B.array(nm, *sh, pos=kind == "+") if sh else B.real(nm, pos=kind == "+"))
    return out


def num_args(rnd, ps):
    rs = np.random.RandomState(rnd.randrange(1 << 30))
    d = {x: rnd.choice((1, 1, 2, 3, 3, 4, 5)) for x in dims_in(ps)}
    out, ten = [], {}
    for nm, (kind, s) in ps.items():
        if kind == "#":
            out.append(d[s])
            continue
        if kind == "@":
            bound, cnt = s.split(":")
            v = rs.randint(0, size(bound, d, 0), size(cnt, d, 0))
        else:
            sh = tuple(size(t, d, 0) for t in s.split(",") if t)
            if kind == "!":
                v = rs.randint(-3, 4, sh)
            elif kind == "?":
                t = rs.randn(*sh)
                ten[nm] = t
                out.append(t > 0)
                continue
            elif kind == "s":
                a = rs.randn(*sh)
                v = a @ a.T + np.eye(sh[0])
            else:
                v = np.round(rs.randn(*sh), 3) if sh else float(np.round(rs.randn(), 3))
                if kind == "+":
                    v = np.abs(v) + 0.01
                if kind == "f" and sh and rnd.random() < .2:
                    v = np.round(v)          # ties
        ten[nm] = v.copy() if hasattr(v, "copy") else v
        if kind == "*":
            for j in range(len(v)):
                ten[f"{nm}{j}"] = v[j].copy()
        out.append(list(v) if kind == "*" else v)
    return d, out, ten


class Result:
    """what one symbolic path returned, to be evaluated later"""


def capture(fn_name, out):
    def run(B):
        m = types.ModuleType("conform_progs")
        m.__dict__["__builtins__"] = B.world.builtins
        exec(loader.code_for(PROGS), m.__dict__)
        fn = getattr(m, fn_name)
        ps = params_sym[fn_name]
        args = sym_args(B, ps)
        o = B.call(fn, *args)
        r = Result()
        r.cx, r.exc, r.value = C.ctx(), o.exc, o.value if o.exc is None else None
        r.args = args
        r.pc = list(C.ctx().pc)
        r.subst = dict(C.ctx().subst)
        r.ext = dict(T.VAREXT)
        r.B = B
        # lists of symbolic length: an arbitrary element
        out.append(r)
        B.ok("ran")
    return run


params_sym = {}


def value(x, ev, r):
    """python value of a symbolic result"""
    if isinstance(x, SymInt):
        return ev.i(x.i, ev.env)
    if isinstance(x, SymReal):
        return ev.r(x.r, ev.env)
    if isinstance(x, SymBool):
        return ev.b(x.b, ev.env)
    if isinstance(x, S.SymArray):
        sh = [ev.i(s, ev.env) for s in x._shape]
        out = np.empty(sh, dtype=object)
        g = x.getter()
        names = [T.fresh("cf") for _ in sh]
        for v, s in zip(names, x._shape):
            T.VAREXT[v] = s
        if not sh:
            t = g(())
            return np.array(ev.b(t, ev.env) if isinstance(t, N) else ev.r(C.to_R(t), ev.env))
        t = g(tuple(I.var(v) for v in names))
        for ix in itertools.product(*map(range, sh)):
            env = {**ev.env, **dict(zip(names, ix))}
            out[ix] = ev.b(t, env) if isinstance(t, N) else ev.r(C.to_R(t), env)
        return out.astype(bool if isinstance(t, N) else float) if out.size else out.astype(float)
    if isinstance(x, loops.PList):
        out = []
        for sg in x._segs():
            if sg.items is not None:
                out += [value(y, ev, r) for y in sg.items]
            else:
                out += [value(sg.get(I.const(j)), ev, r) for j in range(ev.i(sg.n, ev.env))]
        return out
    if isinstance(x, S.SymList):
        return [value(x.fn(I.const(j)), ev, r) for j in range(ev.i(x.n, ev.env))]
    if isinstance(x, tuple):
        return tuple(value(y, ev, r) for y in x)
    if isinstance(x, list):
        return [value(y, ev, r) for y in x]
    if isinstance(x, dict):
        return {k: value(y, ev, r) for k, y in x.items()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise Cannot("value of " + type(x).__name__)


def agree(a, b):
    if isinstance(b, (tuple, list)) and not isinstance(b, np.ndarray):
        if isinstance(a, np.ndarray) or not isinstance(a, (tuple, list)):
            return False
        return isinstance(a, type(b)) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(agree(a[k], b[k]) for k in b)
    if b is None or isinstance(b, str):
        return a == b
    if np.shape(a) != np.shape(b):
        return False
    if np.size(b) and (np.asarray(b).dtype == bool) != (np.asarray(a).dtype == bool):
        return False
    return bool(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-7, atol=1e-8, equal_nan=True))


def test(name, real, trials, rnd, budget=20):
    """-> dict(status, compared, paths, why)"""
    ps = params(real)
    params_sym[name] = ps
    got = []
    c = Contract(capture(name, got), "conform", name, [], None, None, 1)
    keep = T.reset_tables
    results, inc = sym.run_contract(c, budget=budget, maxpaths=400)
    bad = [r for r in results if r.status == "unsupported"]
    rep = {"name": name, "paths": len(got), "compared": 0, "unmatched": 0, "why": "", "status": "ok"}
    if bad and not got:
        rep.update(status="unsupported", why=bad[0].why)
        return rep
    for _ in range(trials):
        d, args, ten = num_args(rnd, ps)
        try:
            import copy
            with np.errstate(all="ignore"):
                exp, exc = real(*copy.deepcopy(args)), None
        except Exception as e:
            exp, exc = None, e
        hits = 0
        for r in got:
            ext = r.ext
            extra = sorted(v for p in r.pc for v in T.fv(p) if v not in d)
            extra = list(dict.fromkeys(extra))
            Ctx.cur = r.cx
            T.VAREXT.update(ext)
            try:
                ev0 = Ev(dict(d), ten, r.cx)
                rngs = []
                for v in extra:
                    if v not in ext:
                        raise Cannot("constant " + v)
                    rngs.append(range(ev0.i(ext[v], d)))
                for combo in itertools.product(*rngs):
                    ev = Ev({**d, **dict(zip(extra, combo))}, ten, r.cx)
                    if not all(ev.b(p, ev.env) for p in r.pc):
                        continue
                    if any(ev.env.get(v) is not None and ev.i(s, ev.env) != ev.env[v] for v, s in r.subst.items()):
                        continue
                    hits += 1
                    if (exc is None) != (r.exc is None):
                        rep.update(status="DIFFERS", why=f"exception {exc!r} versus {r.exc!r} at {d} {args}")
                        return rep
                    if exc is not None:
                        if not any(t.__name__ == type(r.exc).__name__ for t in type(exc).__mro__):
                            rep.update(status="DIFFERS", why=f"exception {exc!r} versus {r.exc!r} at {d}")
                            return rep
                        rep["compared"] += 1
                        break
                    r.cx.decide = lambda b, ev=ev: ev.b(b, ev.env)
                    v = value(r.value, ev, r)
                    rep["compared"] += 1
                    if not agree(v, exp):
                        rep.update(status="DIFFERS", why=f"at {d}\n{args}\nsymbolic {v!r}\nnumpy    {exp!r}")
                        return rep
                    break
            except Cannot as e:
                rep["why"] = str(e)
            except C.Unsupported as e:
                rep["why"] = str(e)
            finally:
                Ctx.cur = None
        if not hits:
            rep["unmatched"] += 1
    if not rep["compared"]:
        rep["status"] = "nothing compared"
    return rep


def run(trials=12, only=(), seed=1, quiet=False):
    src = {}
    with open(PROGS) as f:
        exec(compile(f.read(), PROGS, "exec"), src)
    rnd = random.Random(seed)
    out = []
    for name, fn in list(src.items()):
        if not inspect.isfunction(fn) or name.startswith("_") or (only and name not in only):
            continue
        t0 = time.time()
        try:
            r = test(name, fn, trials, rnd)
        except Exception as e:
            import traceback
            r = {"name": name, "status": "engine", "why": traceback.format_exc()[-600:], "compared": 0, "paths": 0, "unmatched": 0}
        r["s"] = round(time.time() - t0, 2)
        out.append(r)
        if not quiet and (r["status"] != "ok" or only or r["unmatched"]):
            print(f"{r['status']:12} {name} paths {r['paths']} compared {r['compared']} unmatched {r['unmatched']} {r['s']}s {r['why'][:900]}")
    return out


if __name__ == "__main__":
    res = run(int(sys.argv[1]) if len(sys.argv) > 1 else 12, sys.argv[2:])
    from collections import Counter
    print(Counter(r["status"] for r in res), sum(r["compared"] for r in res), "comparisons")
    sys.exit(any(r["status"] == "DIFFERS" for r in res))
