"""Discharging formulas with z3 (cvc5 as second opinion / fallback)."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import I, R, N, h, fv, VAREXT, TENSOR, IVARFACTS, POSDIMS

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0,
         "cvc5": 0, "cvc5_time": 0.0, "cvc5_agree": 0}


def is_dim(name):
    return name in POSDIMS or name in IVARFACTS


class Tr:
    def __init__(self):
        self.cache = {}
        self.facts = []
        self.seen = set()
        self.univ = []      # (ext, fn(I)->N) universal facts to instantiate
        self.bound = []     # names bound by enclosing quantifiers
        self.uf = {}
        self.index_terms = {}   # hash -> (I, ext or None)
        self.queue = []

    # -- helpers
    def func(self, name, nargs, sort="R", argsorts=None):
        k = (name, nargs, sort)
        if k not in self.uf:
            ss = argsorts or [z3.IntSort()] * nargs
            self.uf[k] = z3.Function(name, *ss, z3.RealSort() if sort == "R" else z3.IntSort())
        return self.uf[k]

    def app(self, name, args, sort="R"):
        if not args:
            return z3.Real(name) if sort == "R" else z3.Int(name)
        ss = [a.sort() for a in args]
        key = name + "/" + "".join("r" if s == z3.RealSort() else "i" for s in ss)
        return self.func(key, len(args), sort, ss)(*args)

    def fact(self, n, key=None):
        """n: N bool or z3 formula"""
        self.queue.append(n)

    # -- ints
    def tI(self, x):
        tot = z3.IntVal(0)
        first = True
        for c, at in x.t.values():
            p = None
            for n in at:
                z = self.tIa(n)
                p = z if p is None else p * z
            if p is None:
                p = z3.IntVal(c)
            elif c != 1:
                p = c * p
            tot = p if first else tot + p
            first = False
        return tot

    def note_index(self, i, ext):
        k = h(i)
        if k not in self.index_terms:
            self.index_terms[k] = (i, ext)

    def tIa(self, n):
        k = h(n)
        if k in self.cache:
            return self.cache[k]
        if n.op == "iv":
            name = n.a[0]
            z = z3.Int(name)
            self.cache[k] = z
            if name in VAREXT and name not in self.bound:
                e = VAREXT[name]
                self.fact(T.band(T.cmp("<=", I.const(0), I.atom(n)), T.cmp("<", I.atom(n), e)))
                self.note_index(I.atom(n), e)
            for f in IVARFACTS.get(name, ()):
                self.fact(f)
            return z
        f = n.a[0]
        if f == "ite":
            z = z3.If(self.tB(n.a[1]), self.tI(n.a[2]), self.tI(n.a[3]))
        elif f == "div":
            z = self.tI(n.a[1]) / self.tI(n.a[2])
        elif f == "mod":
            z = self.tI(n.a[1]) % self.tI(n.a[2])
        else:
            z = self.opaque(n, "I")
            self.cache[k] = z
            self.ia_facts(n)
        self.cache[k] = z
        return z

    def ia_facts(self, n):
        f = n.a[0]
        me = I.atom(n)
        if f in ("argmax", "argmin"):
            lam = n.a[1]
            (v, e), = lam.a[0]
            self.fact(T.band(T.cmp("<=", I.const(0), me), T.cmp("<", me, e)))
            self.note_index(me, e)
            best = T.subst(lam.a[1], {v: me})

            def inst(i, lam=lam, v=v, best=best, f=f):
                b = T.subst(lam.a[1], {v: i})
                le = T.cmp("<=", b, best) if f == "argmax" else T.cmp("<=", best, b)
                lt = T.cmp("<", b, best) if f == "argmax" else T.cmp("<", best, b)
                return T.band(le, T.bor(T.cmp("<=", me, i), lt))      # the first one wins
            self.univ.append((e, inst))
        elif f in IAFACTS:
            for fact in IAFACTS[f](n, me, self):
                self.fact(fact)

    def opaque(self, n, sort):
        """UF abstraction of a node: pattern with its closed index subterms as arguments"""
        name, args = pattern(n)
        zargs = [self.tI(a) for a in args]
        return self.app(("I" if sort == "I" else "F") + "_" + name, zargs, sort)

    # -- reals
    def tR(self, x):
        tot = None
        for c, m in x.t.values():
            z = self.tM(m)
            cz = z3.RealVal(str(c))
            z = cz if z is None else (z if c == 1 else cz * z)
            tot = z if tot is None else tot + z
        return tot if tot is not None else z3.RealVal(0)

    def tM(self, m):
        bs, fs = m
        if bs:
            bn = {v for v, _ in bs}
            dep = [(n, q) for n, q in fs if fv(n) & bn]
            ind = [(n, q) for n, q in fs if not (fv(n) & bn)]
            # independent factors outside the sum
            name, args = pattern_mono((bs, tuple(dep)))
            z = self.app("S_" + name, [self.tI(a) for a in args], "R")
            key = ("sumfact", name, tuple(h(a) for a in args))
            if key not in self.seen:
                self.seen.add(key)
                if all(self.nonneg(n, q) for n, q in dep):
                    self.queue.append(z >= 0)
                    if all(T.known_pos(n) for n, q in dep):
                        self.queue.append(z3.Implies(
                            z3.And(*[self.tI(e) >= 1 for _, e in bs]), z > 0))
            for n, q in ind:
                z = z * self.tA(n, q)
            return z
        z = None
        num = [self.tA(n, q) for n, q in fs if q > 0]
        den = [self.tA(n, -q) for n, q in fs if q < 0]
        for a in num:
            z = a if z is None else z * a
        for a in den:
            z = (z3.RealVal(1) if z is None else z) / a
        return z

    def nonneg(self, n, q):
        if q.denominator == 1 and q % 2 == 0:
            return True
        if T.known_pos(n):
            return True
        if n.op == "el" and n.a[0].op == "ts" and TENSOR.get(n.a[0].a[0], {}).get("nonneg"):
            return True
        if n.op == "par" and q.denominator == 2:
            return True
        if n.op == "red" and n.a[0] == "prod":
            for _, (bs, fs) in n.a[1].a[1].t.values():
                return len(n.a[1].a[1].t) == 1 and all(self.nonneg(k, q2) for k, q2 in fs)
        if n.op == "ap" and (n.a[0].startswith("pdf:") or n.a[0] in ("abs",)):
            return True
        if n.op == "ap" and n.a[0] == "ipow" or n.op == "par":
            return self.nonneg_R(n.a[1] if n.op == "ap" else n.a[0])
        if n.op == "ite":
            return self.nonneg_R(n.a[1]) and self.nonneg_R(n.a[2])
        return False

    def nonneg_R(self, r):
        return isinstance(r, R) and all(c > 0 and all(self.nonneg(n, q) for n, q in fs) for c, (bs, fs) in r.t.values())

    def sum_sign(self, d):
        """a sum of entries that are not negative is zero just where all of them are"""
        if len(d.t) != 1:
            return
        (c, (bs, fs)), = d.t.values()
        if len(bs) != 1 or self.bound:
            return
        (v, e), = bs
        dep = tuple((n, q) for n, q in fs if v in fv(n))
        if not all(self.nonneg(n, q) for n, q in dep):
            return
        acc = T.Acc()
        acc.add_norm(Fraction(1), (), dep)
        body = acc.result()
        lam = T.lam([(v, e)], body)
        key = ("sumsign", h(lam))
        if key in self.seen:
            return
        self.seen.add(key)
        z = self.tM((bs, dep))
        self.univ.append((e, lambda i: self.tR(T.subst(body, {v: i})) <= z))
        w = I.atom(N("ia", "wit_sum", lam))
        self.queue.append(z3.Implies(z > 0, z3.And(self.tI(w) >= 0, self.tI(w) < self.tI(e), self.tR(T.subst(body, {v: w})) > 0)))
        self.note_index(w, e)

    def tA(self, n, q):
        """atom ** q for q > 0"""
        if q == 1:
            return self.tAtom(n)
        if q.denominator == 1:
            z = self.tAtom(n)
            r = z
            for _ in range(int(q) - 1):
                r = r * z
            return r
        if q.denominator == 2:
            ip = int(q)
            base = self.tAtom(n)
            k = ("sqrt", h(n))
            if k not in self.cache:
                s = self.sqrtvar(n)
                self.cache[k] = s
                self.queue.append(z3.And(s >= 0, z3.Implies(base >= 0, s * s == base),
                                         z3.Implies(base > 0, s > 0)))
            r = self.cache[k]
            for _ in range(ip):
                r = r * base
            return r
        return self.app(f"pow_{q}", [self.tAtom(n)], "R")

    def sqrtvar(self, n):
        name, args = pattern(n)
        return self.app("sqrt_" + name, [self.tI(a) for a in args], "R")

    def tAtom(self, n):
        k = h(n)
        if k in self.cache:
            return self.cache[k]
        op = n.op
        if op == "ri":
            z = z3.ToReal(self.tIa(n.a[0]))
        elif op == "el":
            t = n.a[0]
            if t.op == "ts":
                idx = list(n.a[1:])
                if T.tensor_sym(t) and len(idx) == 2 and h(idx[1]) < h(idx[0]):
                    idx.reverse()
                args = [self.tI(i) for i in idx]
                z = self.app("T_" + t.a[0], args, "R")
                self.cache[k] = z
                info = TENSOR.get(t.a[0], {})
                if info.get("pos"):
                    self.queue.append(z > 0)
                elif info.get("nonneg"):
                    self.queue.append(z >= 0)
                for fn in info.get("facts", ()):
                    self.fact(fn(*n.a[1:]))
            else:
                z = self.opaque(n, "R")
        elif op == "par":
            z = self.tR(n.a[0])
        elif op == "ite":
            z = z3.If(self.tB(n.a[0]), self.tR(n.a[1]), self.tR(n.a[2]))
        elif op == "del":
            z = z3.If(self.tI(n.a[0]) == self.tI(n.a[1]), z3.RealVal(1), z3.RealVal(0))
        elif op == "c":
            z = z3.Real("const_" + n.a[0])
            if n.a[0] == "pi":
                self.queue.append(z3.And(z > z3.RealVal("3.1415926"), z < z3.RealVal("3.1415927")))
        elif op == "red":
            z = self.opaque(n, "R")
            self.cache[k] = z
            self.red_facts(n, z)
        elif op == "ap":
            f = n.a[0]
            if f == "abs":
                a = self.tR(n.a[1])
                z = z3.If(a >= 0, a, -a)
            elif all(isinstance(y, (R, I)) for y in n.a[1:]):
                args = [self.tR(y) if isinstance(y, R) else self.tI(y) for y in n.a[1:]]
                z = self.app("f_" + f, args, "R")
            else:
                z = self.opaque(n, "R")
            self.cache[k] = z
            if f == "exp" or f.startswith("pospdf:"):
                self.queue.append(z > 0)
            elif f.startswith("pdf:"):
                self.queue.append(z >= 0)
            elif f.startswith("round") and f[5:].lstrip("-").isdigit():
                a, h_ = self.tR(n.a[1]), z3.RealVal(str(Fraction(1, 2) / Fraction(10) ** int(f[5:])))
                self.queue.append(z3.And(z - a <= h_, a - z <= h_))
            elif f in ("trunc", "floor"):
                a = self.tR(n.a[1])
                fl = z3.ToReal(z3.ToInt(a))
                self.queue.append(z == fl if f == "floor" else
                                  z == z3.If(a >= 0, fl, -z3.ToReal(z3.ToInt(-a))))
        else:
            z = self.opaque(n, "R")
        self.cache[k] = z
        return z

    def red_facts(self, n, z):
        kind, lam = n.a
        (v, e), = lam.a[0]
        body = lam.a[1]
        if kind == "prod":
            if len(body.t) == 1:
                (c, (bs, fs)), = body.t.values()
                if c > 0 and all(T.known_pos(k) for k, _ in fs):
                    self.queue.append(z > 0)
                elif c > 0 and all(self.nonneg(k, q) for k, q in fs):
                    self.queue.append(z >= 0)
            return
        me = R.atom(n)
        le = (lambda a, b: T.cmp("<=", a, b)) if kind == "max" else (lambda a, b: T.cmp("<=", b, a))

        def inst(i):
            return le(T.subst(body, {v: i}), me)
        self.univ.append((e, inst))
        # witness
        wname, wargs = pattern(n)
        w = I.atom(N("ia", "wit_" + kind, *n.a[1:]))
        self.fact(T.band(T.cmp("<=", I.const(0), w), T.cmp("<", w, e),
                         T.cmp("==", T.subst(body, {v: w}), me)))
        self.note_index(w, e)

    # -- booleans
    def tB(self, n):
        op = n.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "cmp":
            d = n.a[1]
            if isinstance(d, R):
                self.sum_sign(d)
            z = self.tI(d) if isinstance(d, I) else self.tR(d)
            o = n.a[0]
            return z < 0 if o == "<" else z <= 0 if o == "<=" else z == 0
        if op == "and":
            return z3.And(*[self.tB(y) for y in n.a])
        if op == "or":
            return z3.Or(*[self.tB(y) for y in n.a])
        if op == "not":
            return z3.Not(self.tB(n.a[0]))
        if op == "bt":
            # opaque boolean atom
            name, args = pattern(n)
            return self.app("B_" + name, [self.tI(a) for a in args], "I") != 0
        if op in ("forall", "exists"):
            lam = n.a[0]
            (v, e), = lam.a[0]
            nv = T.fresh("q")
            body = T.subst(lam.a[1], {v: I.var(nv)})
            if op == "forall":
                key = ("univ", h(n))
                if key not in self.seen:
                    self.seen.add(key)
            sub = Tr()
            sub.uf = self.uf
            sub.bound = self.bound + [nv]
            zb = sub.tB(body)
            # facts about terms under the quantifier are only used unquantified
            zv = z3.Int(nv)
            rng = z3.And(zv >= 0, zv < self.tI(e))
            if op == "forall":
                return z3.ForAll([zv], z3.Implies(rng, zb))
            return z3.Exists([zv], z3.And(rng, zb))
        raise TypeError("not boolean: %s" % n.op)

    def drain(self, solver, rounds=3):
        """add the collected facts and the instantiations of universal facts"""
        done = set()
        for _ in range(rounds):
            guard = 0
            while self.queue and guard < 2000:
                guard += 1
                f = self.queue.pop()
                if isinstance(f, N):
                    k = h(f)
                    if k in self.seen:
                        continue
                    self.seen.add(k)
                    solver.add(self.tB(f))
                else:
                    solver.add(f)
            n0 = len(done)
            for ui, (e, inst) in enumerate(list(self.univ)):
                for k, (i, ext) in list(self.index_terms.items()):
                    if (ui, k) in done or ext is None or not (ext == e):
                        continue
                    done.add((ui, k))
                    self.fact(inst(i))
            if not self.queue and len(done) == n0:
                break
        while self.queue:
            f = self.queue.pop()
            if isinstance(f, N):
                k = h(f)
                if k in self.seen:
                    continue
                self.seen.add(k)
                solver.add(self.tB(f))
            else:
                solver.add(f)


# integer-app facts registered by the numpy contracts: name -> fn(node, I, tr) -> [N]
IAFACTS = {}


# ----------------------------------------------------------------- patterns

def _nondim(x):
    return any(not is_dim(v) for v in fv(x))


def _has_ia(x):
    found = []

    def f(n):
        if n.op == "ia":
            found.append(1)
    T.walk(x, f)
    return bool(found)


def _holes(x, bound, holes):
    """replace closed index subterms by fresh hole variables"""
    if isinstance(x, I):
        if x.is_const():
            return x
        if not (fv(x) & bound):
            if not _nondim(x) and not _has_ia(x):
                return x
            name = T.fresh("?")
            holes[name] = x
            return I.var(name)
        closed = I.const(0)
        out = I.const(0)
        for k, (c, at) in x.t.items():
            m = I({k: (c, at)})
            if fv(m) & bound:
                p = I.const(c)
                for n in at:
                    if n.op == "ia":
                        n = N("ia", n.a[0], *[_holes(y, bound, holes) for y in n.a[1:]])
                        p = p * I.atom(n)
                    else:
                        p = p * I.atom(n)
                out = out + p
            else:
                closed = closed + m
        return out + _holes(closed, bound, holes) if closed.t else out
    if isinstance(x, R):
        acc = R.const(0)
        for c, (bs, fs) in x.t.values():
            b2 = bound | {v for v, _ in bs}
            nf = tuple((_holes(n, b2, holes), q) for n, q in fs)
            m = (bs, nf)
            acc = acc + R({T.mono_hash(m): (c, m)})
        return acc
    if isinstance(x, tuple):
        return tuple(_holes(y, bound, holes) for y in x)
    if isinstance(x, N):
        if x.op == "iv":
            if x.a[0] in bound or is_dim(x.a[0]):
                return x
            name = T.fresh("?")
            holes[name] = I.atom(x)
            return N("iv", name)
        if x.op == "ia":
            if not (fv(x) & bound):
                name = T.fresh("?")
                holes[name] = I.atom(x)
                return N("iv", name)
            return N("ia", x.a[0], *[_holes(y, bound, holes) for y in x.a[1:]])
        if x.op == "lam":
            vs, body = x.a
            return N("lam", vs, _holes(body, bound | {v for v, _ in vs}, holes))
        return N(x.op, *[_holes(y, bound, holes) for y in x.a])
    return x


def _order(x, env, out):
    """visit hole variables of x in an order that only depends on the hole-blind structure"""
    if isinstance(x, I):
        for _, c, at in sorted(((sorted(h(n, env) for n in at), c, at)
                                for c, at in x.t.values()), key=lambda p: (p[0], p[1])):
            for n in at:
                _order(n, env, out)
    elif isinstance(x, R):
        for _, m in sorted(((T.mono_hash(m, env), m) for c, m in x.t.values()), key=lambda p: p[0]):
            bs, fs = m
            for _, n in sorted(((h(n, env), n) for n, q in fs), key=lambda p: p[0]):
                _order(n, env, out)
    elif isinstance(x, tuple):
        for y in x:
            _order(y, env, out)
    elif isinstance(x, N):
        if x.op == "iv":
            if x.a[0].startswith("?") and x.a[0] not in out:
                out.append(x.a[0])
            return
        ys = x.a
        if x.op in ("and", "or", "del"):
            ys = sorted(ys, key=lambda y: h(y, env))
        for y in ys:
            _order(y, env, out)


def pattern(n):
    holes = {}
    if n.op in ("ia",):
        p = N("ia", n.a[0], *[_holes(y, frozenset(), holes) for y in n.a[1:]])
    else:
        p = _holes(n, frozenset(), holes)
    return _finish(p, holes)


def pattern_mono(m):
    holes = {}
    bs, fs = m
    b = frozenset(v for v, _ in bs)
    nf = tuple((_holes(n, b, holes), q) for n, q in fs)
    r = R({"x": (Fraction(1), (bs, nf))})
    return _finish(r, holes)


def _finish(p, holes):
    if not holes:
        return h(p), []
    env = {k: "#hole" for k in holes}
    order = []
    _order(p, env, order)
    for k in holes:
        if k not in order:
            order.append(k)
    env = {k: f"#h{i}" for i, k in enumerate(order)}
    if isinstance(p, R):
        name = T.H(sorted(T.mono_hash(m, env) for _, m in p.t.values()))
    else:
        name = h(p, env)
    return name, [holes[k] for k in order]


# ----------------------------------------------------------------- queries

def check_sat(assumptions, extra, timeout=2000):
    """sat of assumptions and extra -> 'sat'/'unsat'/'unknown'"""
    s = z3.Solver()
    s.set("timeout", timeout)
    tr = Tr()
    for a in list(assumptions) + list(extra):
        s.add(tr.tB(a))
    tr.drain(s)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    res = str(r)
    STATS[res] = STATS.get(res, 0) + 1
    return res, s, tr


def cvc5_check(s, timeout=10):
    """second back end on the same smt2 text"""
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout*1000}", name],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(name)
    STATS["cvc5"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"


def skolemize(goal):
    """strip leading foralls of a goal"""
    if goal.op == "forall":
        lam = goal.a[0]
        (v, e), = lam.a[0]
        nv = T.fresh("sk_" + v.split("~")[0])
        VAREXT[nv] = e
        return skolemize(T.subst(lam.a[1], {v: I.var(nv)}))
    if goal.op == "or":
        # push: or with one forall
        return T.bor(*[skolemize(y) if y.op == "forall" else y for y in goal.a])
    return goal


def prove(assumptions, goal, timeout=6000, second=False, split=2):
    """-> (verdict, backend, model) verdict in proved/refuted/unknown"""
    r = prove1(assumptions, goal, timeout, second)
    if r[0] == "proved" or not split:
        return r
    # case distinction on a condition of the goal, resolved throughout the goal
    goal = skolemize(goal)
    for c in T.open_conditions(goal)[:4]:
        k = h(c)
        ok = True
        for val in (True, False):
            fact = c if val else T.bnot(c)
            if check_sat(assumptions + [fact], [], 1000)[0] == "unsat":
                continue
            g = T.subst(goal, T.Resolve({k: val}))
            q = prove(assumptions + [fact], g, timeout, second, split - 1)
            if q[0] != "proved":
                ok = False
                break
        if ok:
            return "proved", "case distinction", None
    return r


def prove1(assumptions, goal, timeout=6000, second=False):
    goal = skolemize(goal)
    if goal.op == "true":
        return "proved", "normalisation", None
    if goal.op == "and":
        worst = ("proved", "normalisation", None)
        for g in goal.a:
            r = prove1(assumptions, g, timeout, second)
            if r[0] != "proved":
                return r
            if r[1] != "normalisation":
                worst = r
        return worst
    if goal.op == "cmp" and goal.a[0] == "==" and isinstance(goal.a[1], R):
        d = T.clear_denoms(goal.a[1])
        if not d.t:
            return "proved", "normalisation", None
    if goal.op == "false":
        res, s, tr = check_sat(assumptions, [], timeout)
        if res == "unsat":
            return "proved", "z3", None
        if any(has_forall(a) for a in assumptions):
            if check_sat_inst(assumptions, goal, timeout, wide=True)[0] == "unsat":
                return "proved", "z3", None
        return ("refuted" if res == "sat" else "unknown"), "z3", (s.model() if res == "sat" else None)
    # hypotheses that are universally quantified are instantiated on skolem terms
    res, s, tr = check_sat_inst(assumptions, goal, timeout)
    if res == "unsat":
        return "proved", "z3", None
    if any(has_forall(a) for a in assumptions):
        # and then on the index terms the formulas themselves mention
        r3, s3, tr3 = check_sat_inst(assumptions, goal, timeout, wide=True)
        if r3 == "unsat":
            return "proved", "z3", None
    if res == "unknown":
        r2 = cvc5_check(s)
        if r2 == "unsat":
            return "proved", "cvc5", None
        return "unknown", "z3", None
    return "refuted", "z3", s.model()


def has_forall(a):
    return any(f.op == "forall" for f in (a.a if a.op == "and" else (a,)))


def ground_indices(fs, most=8):
    """the constant and dimension-only index terms of the tensors the formulas mention"""
    out = {}

    def see(n):
        if n.op == "el" and n.a[0].op == "ts":
            for i in n.a[1:]:
                if isinstance(i, I) and len(out) < most and not _nondim(i) and not _has_ia(i):
                    out.setdefault(h(i), i)
    out[h(I.const(0))] = I.const(0)
    for f in fs:
        T.walk(f, see)
    return list(out.values())


def check_sat_inst(assumptions, goal, timeout, wide=False):
    s = z3.Solver()
    s.set("timeout", timeout)
    tr = Tr()
    ng = T.bnot(goal)
    s.add(tr.tB(ng))
    for a in assumptions:
        s.add(tr.tB(a))
        for f in (a.a if a.op == "and" else (a,)):
            if f.op == "forall":
                lam = f.a[0]
                (v, e), = lam.a[0]
                tr.univ.append((e, lambda i, lam=lam, v=v: T.subst(lam.a[1], {v: i})))
    if wide:
        ground = ground_indices([ng] + list(assumptions))
        for f in [f for a in assumptions for f in (a.a if a.op == "and" else (a,)) if f.op == "forall"]:
            lam = f.a[0]
            (v, e), = lam.a[0]
            for i in ground + [x for x, ext in list(tr.index_terms.values()) if ext is not None and ext == e]:
                body = T.subst(lam.a[1], {v: i})
                rng = T.band(T.cmp("<=", I.const(0), i), T.cmp("<", i, e))
                tr.fact(T.bor(T.bnot(rng), body))
                for g in (body.a if body.op == "and" else (body,)):
                    if g.op == "forall":
                        l2 = g.a[0]
                        (v2, e2), = l2.a[0]
                        tr.univ.append((e2, lambda j, l2=l2, v2=v2, rng=rng:
                                        T.bor(T.bnot(rng), T.subst(l2.a[1], {v2: j}))))
    tr.drain(s)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    res = str(r)
    STATS[res] = STATS.get(res, 0) + 1
    return res, s, tr
