"""Symbolic terms of the verifier.

I   integer polynomials over index/dimension atoms
R   real polynomials whose monomials carry summation binders
    (coef * SUM_{v1<e1} ... SUM_{vk<ek} prod_j atom_j ** q_j), kept canonical up
    to renaming / reordering of the binders, so that equality of the usual
    matrix expressions is decided by normalisation
N   every other node (atoms, booleans, lambdas, tensors)

Canonical identity is a structural hash computed with a complete canonical
labelling of the binders (colour refinement + individualisation).
"""
from fractions import Fraction
from hashlib import blake2b
import itertools

F0, F1 = Fraction(0), Fraction(1)
HALF = Fraction(1, 2)


class TermLimit(BaseException):
    """the engine's own size limit (never the program's fault)"""


def H(*parts):
    return blake2b(repr(parts).encode(), digest_size=12).hexdigest()


_counter = itertools.count(1)


def fresh(prefix="v"):
    return f"{prefix}~{next(_counter)}"


# name -> extent I for index variables (range 0 <= v < ext)
VAREXT = {}
# tensor name -> dict(sym, pos, nonneg, int, facts=[fn(idx)->N bool])
TENSOR = {}
# index/dim variable name -> list of facts (N bool), e.g. dims >= 1
IVARFACTS = {}


def reset_tables():
    VAREXT.clear()
    TENSOR.clear()
    IVARFACTS.clear()
    HAS_SEQ.clear()


class N:
    """generic node"""

    __slots__ = ("op", "a", "_h", "_fv")

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self._h = None
        self._fv = None

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, N) and h(self) == h(o)

    def __hash__(self):
        return hash(h(self))

    # boolean conveniences
    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)


class I:
    __slots__ = ("t", "_h", "_fv")

    def __init__(self, t):
        # t: dict {tuple(sorted atom hashes...)} -> (coef, atoms)
        self.t = t
        self._h = None
        self._fv = None

    @staticmethod
    def const(c):
        c = int(c)
        return I({(): (c, ())}) if c else I({})

    @staticmethod
    def atom(n):
        return I({(h(n),): (1, (n,))})

    @staticmethod
    def var(name, ext=None):
        if ext is not None:
            VAREXT[name] = ext
        return I.atom(N("iv", name))

    @staticmethod
    def of(x):
        if isinstance(x, I):
            return x
        if isinstance(x, bool):
            return I.const(int(x))
        if isinstance(x, int):
            return I.const(x)
        if isinstance(x, R):
            r = x.as_I()
            if r is None:
                raise TypeError("not an integer term: %r" % (x,))
            return r
        if isinstance(x, N) and x.op in ("iv", "ia"):
            return I.atom(x)
        if hasattr(x, "__index__"):
            return I.const(x.__index__())
        raise TypeError("cannot convert %r to I" % (x,))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()][0]
        return None

    def as_var(self):
        """variable name if this is exactly one variable"""
        if len(self.t) == 1:
            (k, (c, at)), = self.t.items()
            if c == 1 and len(at) == 1 and at[0].op == "iv":
                return at[0].a[0]
        return None

    def as_atom(self):
        if len(self.t) == 1:
            (k, (c, at)), = self.t.items()
            if c == 1 and len(at) == 1:
                return at[0]
        return None

    def __add__(self, o):
        o = I.of(o)
        t = dict(self.t)
        for k, (c, at) in o.t.items():
            if k in t:
                nc = t[k][0] + c
                if nc:
                    t[k] = (nc, at)
                else:
                    del t[k]
            else:
                t[k] = (c, at)
        return I(t)

    __radd__ = __add__

    def __neg__(self):
        return I({k: (-c, at) for k, (c, at) in self.t.items()})

    def __sub__(self, o):
        return self + (-I.of(o))

    def __rsub__(self, o):
        return I.of(o) - self

    def __mul__(self, o):
        o = I.of(o)
        t = {}
        for k1, (c1, a1) in self.t.items():
            for k2, (c2, a2) in o.t.items():
                pairs = sorted(zip(k1 + k2, a1 + a2), key=lambda p: p[0])
                k = tuple(p[0] for p in pairs)
                at = tuple(p[1] for p in pairs)
                c = c1 * c2
                if k in t:
                    c += t[k][0]
                if c:
                    t[k] = (c, at)
                elif k in t:
                    del t[k]
        return I(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, I) and h(self) == h(o)

    def __hash__(self):
        return hash(h(self))

    def __repr__(self):
        return show(self)


def i_add_list(xs):
    r = I.const(0)
    for x in xs:
        r = r + x
    return r


# ----------------------------------------------------------------- hashing

def fv(x):
    """free index variable names"""
    if isinstance(x, (I, R, N)):
        if x._fv is None:
            x._fv = _fv(x)
        return x._fv
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= fv(y)
        return s
    return frozenset()


def _fv(x):
    if isinstance(x, I):
        s = set()
        for _, at in x.t.values():
            for n in at:
                s |= fv(n)
        return frozenset(s)
    if isinstance(x, R):
        s = set()
        for _, m in x.t.values():
            s |= mono_fv(m)
        return frozenset(s)
    if x.op == "iv":
        return frozenset((x.a[0],))
    if x.op == "lam":
        vs, body = x.a
        s = set(fv(body)) - {v for v, _ in vs}
        for _, e in vs:
            s |= fv(e)
        return frozenset(s)
    s = set()
    for y in x.a:
        s |= fv(y)
    return frozenset(s)


def mono_fv(m):
    bs, fs = m
    s = set()
    for n, _ in fs:
        s |= fv(n)
    s -= {v for v, _ in bs}
    for _, e in bs:
        s |= fv(e)
    return frozenset(s)


_EMPTY = {}


def h(x, env=_EMPTY):
    if isinstance(x, (I, R, N)):
        if not env or env.keys().isdisjoint(fv(x)):
            if x._h is None:
                x._h = _h(x, _EMPTY)
            return x._h
        return _h(x, env)
    if isinstance(x, tuple):
        return tuple(h(y, env) for y in x)
    if x is None or isinstance(x, (str, int, bool, Fraction)):
        return x
    if isinstance(x, float):
        return ("f", repr(x))
    raise TypeError("unhashable term part %r" % (x,))


def _h(x, env):
    if isinstance(x, I):
        c = x.cval()
        if c is not None:
            return H("c", c)
        parts = sorted((sorted(h(n, env) for n in at), c) for c, at in x.t.values())
        if len(parts) == 1 and parts[0][1] == 1 and len(parts[0][0]) == 1:
            return parts[0][0][0]
        return H("I", parts)
    if isinstance(x, R):
        parts = sorted((mono_hash(m, env), c.numerator, c.denominator)
                       for c, m in x.t.values())
        return H("R", parts)
    op = x.op
    if op == "iv":
        return H("iv", env.get(x.a[0], x.a[0]))
    if op == "el":
        t = x.a[0]
        idx = [h(i, env) for i in x.a[1:]]
        if len(idx) == 2 and tensor_sym(t):
            idx.sort()
        return H("el", h(t, env), idx)
    if op == "del":
        return H("del", sorted((h(x.a[0], env), h(x.a[1], env))))
    if op in ("and", "or"):
        return H(op, sorted(h(y, env) for y in x.a))
    if op == "cmp" and x.a[0] == "==":
        # equality to zero does not depend on the sign
        return H("==0", sorted((h(x.a[1], env), h(-x.a[1], env))))
    if op == "lam":
        vs, body = x.a
        e = dict(env)
        # positional (de Bruijn-level like) colours; the level keeps nested lambdas apart
        d = env.get("#depth", 0)
        for i, (v, ext) in enumerate(vs):
            e[v] = f"#{d}.{i}"
        e["#depth"] = d + 1
        return H("lam", [h(ext, env) for _, ext in vs], h(body, e))
    return H(op, [h(y, env) for y in x.a])


def tensor_sym(t):
    if t.op == "ts":
        return TENSOR.get(t.a[0], {}).get("sym", False)
    if t.op == "op":
        return "sym" in t.a[1] if isinstance(t.a[1], tuple) else False
    return False


def mono_hash(m, env=_EMPTY):
    bs, fs = m
    if not bs:
        return H("m", sorted((h(n, env), q.numerator, q.denominator) for n, q in fs))
    d = env.get("#depth", 0)
    base = dict(env)
    base["#depth"] = d + 1
    exts = {v: h(e, env) for v, e in bs}
    names = [v for v, _ in bs]
    occ = {v: [] for v in names}
    fcs = []
    for k, (n, q) in enumerate(fs):
        vs = [v for v in names if v in fv(n)]
        fcs.append((n, q, vs))
        for v in vs:
            occ[v].append(k)
    col = {v: H("b", exts[v]) for v in names}

    def refine(col):
        while True:
            env1 = dict(base)
            env1.update(col)
            new = {}
            for v in names:
                sig = []
                e2 = dict(env1)
                e2[v] = "#mark"
                for k in occ[v]:
                    n, q, _ = fcs[k]
                    sig.append((h(n, e2), q.numerator, q.denominator))
                sig.sort()
                new[v] = H(col[v], sig)
            if len(set(new.values())) == len(set(col.values())):
                return new
            col = new

    def final(col):
        order = sorted(names, key=lambda v: col[v])
        e2 = dict(base)
        for i, v in enumerate(order):
            e2[v] = f"#s{d}.{i}"
        return H("m", [exts[v] for v in order],
                 sorted((h(n, e2), q.numerator, q.denominator) for n, q, _ in fcs))

    def search(col):
        col = refine(col)
        classes = {}
        for v in names:
            classes.setdefault(col[v], []).append(v)
        multi = sorted((c, vs) for c, vs in classes.items() if len(vs) > 1)
        if not multi:
            return final(col)
        c, vs = multi[0]
        best = None
        for v in vs:
            c2 = dict(col)
            c2[v] = H("ind", c)
            r = search(c2)
            if best is None or r < best:
                best = r
        return best

    return search(col)


# ----------------------------------------------------------------- show

def show(x):
    if isinstance(x, I):
        if not x.t:
            return "0"
        out = []
        for c, at in x.t.values():
            s = "*".join(show(n) for n in at)
            if not at:
                out.append(str(c))
            else:
                out.append(s if c == 1 else f"{c}*{s}")
        return " + ".join(out)
    if isinstance(x, R):
        if not x.t:
            return "0"
        out = []
        for c, (bs, fs) in x.t.values():
            s = "*".join(show(n) + ("" if q == 1 else f"^({q})") for n, q in fs)
            if bs:
                s = "SUM{" + ",".join(f"{v}<{show(e)}" for v, e in bs) + "}" + (s or "1")
            if not s:
                out.append(str(c))
            else:
                out.append(s if c == 1 else f"{c}*{s}")
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if isinstance(x, N):
        if x.op == "iv":
            return x.a[0]
        if x.op == "ts":
            return x.a[0]
        if x.op == "el":
            return show(x.a[0]) + "[" + ",".join(show(i) for i in x.a[1:]) + "]"
        if x.op == "lam":
            return "\\" + ",".join(v for v, _ in x.a[0]) + "." + show(x.a[1])
        if x.op == "ri":
            return show(x.a[0])
        if x.op == "cmp":
            return f"({show(x.a[1])} {x.a[0]} 0)"
        return x.op + "(" + ",".join(show(y) for y in x.a) + ")"
    if isinstance(x, tuple):
        return "(" + ",".join(show(y) for y in x) + ")"
    return str(x)


# ----------------------------------------------------------------- R

MAXTERMS = 4000


class R:
    __slots__ = ("t", "_h", "_fv")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None

    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c))
        c = Fraction(c)
        if c == 0:
            return R({})
        m = ((), ())
        return R({mono_hash(m): (c, m)})

    @staticmethod
    def atom(n, q=F1):
        m = ((), ((n, Fraction(q)),))
        return R({mono_hash(m): (F1, m)})

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, bool):
            return R.const(int(x))
        if isinstance(x, (int, float, Fraction)):
            return R.const(x)
        if isinstance(x, I):
            return r_of_I(x)
        if isinstance(x, N):
            if x.op in ("iv", "ia"):
                return R.atom(N("ri", x))
            if is_bool(x):
                return ite(x, R.const(1), R.const(0))
            return R.atom(x)
        if hasattr(x, "__float__") and not isinstance(x, str):
            return R.const(float(x))
        raise TypeError("cannot convert %r to R" % (x,))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and next(iter(self.t.values()))[1] == ((), ()))

    def cval(self):
        if not self.t:
            return F0
        if len(self.t) == 1:
            c, m = next(iter(self.t.values()))
            if m == ((), ()):
                return c
        return None

    def as_I(self):
        """integer polynomial if every monomial is integer valued by construction"""
        r = I.const(0)
        for c, (bs, fs) in self.t.values():
            if bs or c.denominator != 1:
                return None
            p = I.const(int(c))
            for n, q in fs:
                if n.op != "ri" or q.denominator != 1 or q < 0:
                    return None
                for _ in range(int(q)):
                    p = p * I.atom(n.a[0])
            r = r + p
        return r

    def __add__(self, o):
        o = R.of(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for k, (c, m) in o.t.items():
            if k in t:
                nc = t[k][0] + c
                if nc:
                    t[k] = (nc, t[k][1])
                else:
                    del t[k]
            else:
                t[k] = (c, m)
        if len(t) > MAXTERMS:
            raise TermLimit("polynomial too large")
        return R(t)

    __radd__ = __add__

    def __neg__(self):
        return R({k: (-c, m) for k, (c, m) in self.t.items()})

    def __sub__(self, o):
        return self + (-R.of(o))

    def __rsub__(self, o):
        return R.of(o) - self

    def scale(self, c):
        c = Fraction(c)
        if c == 0:
            return R({})
        return R({k: (c * cc, m) for k, (cc, m) in self.t.items()})

    def __mul__(self, o):
        o = R.of(o)
        if not self.t or not o.t:
            return R({})
        c = o.cval()
        if c is not None:
            return self.scale(c)
        c = self.cval()
        if c is not None:
            return o.scale(c)
        acc = Acc()
        for c1, m1 in self.t.values():
            for c2, m2 in o.t.values():
                bs1, fs1 = m1
                bs2, fs2 = m2
                if bs1 and bs2:
                    n1 = {v for v, _ in bs1}
                    if any(v in n1 for v, _ in bs2) or True:
                        bs2, fs2 = rename_binders(bs2, fs2)
                acc.add_norm(c1 * c2, bs1 + bs2, fs1 + fs2)
        return acc.result()

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * R.of(o) ** -1

    def __rtruediv__(self, o):
        return R.of(o) * self ** -1

    def __pow__(self, q):
        q = Fraction(q)
        return r_pow(self, q)

    def __eq__(self, o):
        return isinstance(o, R) and h(self) == h(o)

    def __hash__(self):
        return hash(h(self))

    def __repr__(self):
        return show(self)


class Acc:
    def __init__(self):
        self.t = {}

    def add_mono(self, c, m):
        k = mono_hash(m)
        if k in self.t:
            nc = self.t[k][0] + c
            if nc:
                self.t[k] = (nc, self.t[k][1])
            else:
                del self.t[k]
        elif c:
            self.t[k] = (c, m)
        if len(self.t) > MAXTERMS:
            raise TermLimit("polynomial too large")

    def add_R(self, r):
        for k, (c, m) in r.t.items():
            if k in self.t:
                nc = self.t[k][0] + c
                if nc:
                    self.t[k] = (nc, self.t[k][1])
                else:
                    del self.t[k]
            else:
                self.t[k] = (c, m)
        if len(self.t) > MAXTERMS:
            raise TermLimit("polynomial too large")

    def add_norm(self, c, bs, fs):
        r = mono_norm(c, bs, fs)
        if isinstance(r, R):
            self.add_R(r)
        elif r is not None:
            self.add_mono(*r)

    def result(self):
        return R(self.t)


def rename_binders(bs, fs):
    m = {}
    nb = []
    for v, e in bs:
        nv = fresh("s")
        VAREXT[nv] = e
        m[v] = I.var(nv)
        nb.append((nv, e))
    return tuple(nb), tuple(f for n, q in fs for f in _as_factors(subst(n, m), q))


def _as_factors(n, q):
    if isinstance(n, N):
        return ((n, q),)
    if len(n.t) == 1:
        c, (bs, fs) = next(iter(n.t.values()))
        if c == 1 and not bs:
            return tuple((f, p * q) for f, p in fs)
    return ((N("par", n), q),)


def mono_norm(c, bs, fs):
    """normalise coef * SUM bs prod fs.  Returns None (zero), (coef, mono) or R."""
    # combine equal atoms
    comb = {}
    for n, q in fs:
        k = h(n)
        if k in comb:
            comb[k] = (n, comb[k][1] + q)
        else:
            comb[k] = (n, q)
    out = []
    for k, (n, q) in comb.items():
        if q == 0:
            continue
        op = n.op
        if op == "del":
            d = n.a[0] - n.a[1]
            cv = d.cval()
            if cv == 0:
                continue
            if cv is not None:
                return None
            q = F1
            # eliminate a bound variable
            for v, e in bs:
                if v in fv(d):
                    s = solve_for(d, v)
                    if s is not None and in_range(s, e):
                        rest = [(b, eb) for b, eb in bs if b != v]
                        others = [(n2, q2) for k2, (n2, q2) in comb.items() if k2 != k]
                        r = R.const(c)
                        for n2, q2 in others:
                            s2 = subst(n2, {v: s})
                            r = r * (lift(s2) ** q2)
                        return sum_binders(tuple(rest), r)
        elif op == "ite":
            cond = n.a[0]
            if q.denominator == 1 and q > 0 and q != 1:
                others = [x for k2, x in comb.items() if k2 != k]
                return _mk(c, bs, others, ite(n.a[0], n.a[1] ** q, n.a[2] ** q))
        elif op == "par":
            if q.denominator == 1 and q > 0:
                others = [x for k2, x in comb.items() if k2 != k]
                return _mk(c, bs, others, n.a[0] ** q)
            if q > 1:
                others = [x for k2, x in comb.items() if k2 != k]
                ip = int(q)
                others.append((n, q - ip))
                return _mk(c, bs, others, n.a[0] ** ip)
        out.append((n, q))
    # delta^2 = delta etc handled by q=F1 above
    if not bs:
        return (c, ((), tuple(out)))
    used = set()
    for n, _ in out:
        used |= fv(n)
    dead = [(v, e) for v, e in bs if v not in used]
    live = tuple((v, e) for v, e in bs if v in used)
    # bounds depending on other binders are not supported: extents are closed
    if dead:
        r = R({mono_hash((live, tuple(out))): (Fraction(c), (live, tuple(out)))})
        for _, e in dead:
            r = r * R.of(e)
        return r
    f = regroup(live, out)
    if f is not None:
        return sum_binders(f[0], R.const(c) * f[1])
    return (c, (live, tuple(out)))


def regroup(bs, fs):
    """one normal form for a sum over the cells of a table, whether it runs over the flat positions
    or over rows and columns: flat where only the flat position matters, by rows and columns where
    the row of a position is asked for"""
    for v, e in bs:
        if len(e.t) != 1:
            continue
        (c, at), = e.t.values()
        if c != 1 or len(at) < 2:
            continue
        inner = []

        def see(n):
            if n.op == "ia" and n.a[0] == "div" and n.a[1].as_var() == v and \
                    not _split_by(e, n.a[2])[1].t:
                inner.append(n.a[2])
        for n, _ in fs:
            if v in fv(n):
                walk(n, see)
            if inner:
                break
        if inner:
            b = inner[0]
            a = _split_by(e, b)[0]
            i, j = fresh("r"), fresh("c")
            VAREXT[i], VAREXT[j] = a, b
            m = {v: b * I.var(i) + I.var(j)}
            rest = tuple(x for x in bs if x[0] != v) + ((i, a), (j, b))
            return rest, _prod_of(fs, m)
    if len(bs) < 2:
        return None
    for i, a in bs:
        for j, b in bs:
            if i == j or b.cval() is not None or a.cval() is not None:
                continue
            hit = [n for n, _ in fs if i in fv(n) or j in fv(n)]
            if not hit or any((i in fv(n)) != (j in fv(n)) for n in hit):
                continue
            k = fresh("k")
            VAREXT[k] = a * b
            m = {j: I.var(k) - b * I.var(i)}
            if any(i in fv(subst(n, m)) for n in hit):
                continue
            rest = tuple(x for x in bs if x[0] not in (i, j)) + ((k, a * b),)
            return rest, _prod_of(fs, m)
    return None


def _prod_of(fs, m):
    r = R.const(1)
    for n, q in fs:
        r = r * (lift(subst(n, m)) ** q)
    return r


def _mk(c, bs, others, extra):
    r = R.const(c)
    acc = Acc()
    acc.add_norm(Fraction(c), (), tuple(others))
    r = acc.result() * extra
    return sum_binders(tuple(bs), r)


def sum_binders(bs, r):
    """SUM over binders bs of r (names already the binder names)"""
    acc = Acc()
    own = {v for v, _ in bs}
    for c, (b2, f2) in r.t.values():
        if any(v in own for v, _ in b2):
            b2, f2 = rename_binders(b2, f2)
        acc.add_norm(c, tuple(bs) + b2, f2)
    return acc.result()


def solve_for(d, v):
    """d == 0 solved for variable v with coefficient +-1 -> I or None"""
    coef = None
    rest = I.const(0)
    for k, (c, at) in d.t.items():
        if any(v in fv(n) for n in at):
            if len(at) == 1 and at[0].op == "iv" and c in (1, -1) and coef is None:
                coef = c
            else:
                return None
        else:
            rest = rest + I({k: (c, at)})
    if coef is None:
        return None
    return -rest if coef == 1 else rest


RANGE_HOOK = [None]


def in_range(s, e):
    """0 <= s < e provable?"""
    v = s.as_var()
    if v is not None and v in VAREXT and VAREXT[v] == e:
        return True
    c = s.cval()
    ce = e.cval()
    if c is not None and ce is not None:
        return 0 <= c < ce
    if RANGE_HOOK[0] is not None:
        return RANGE_HOOK[0](s, e)
    return False


SUM_EXPAND = 16


def r_sum(v, ext, body):
    """SUM_{0<=v<ext} body"""
    c = ext.cval()
    if c is not None:
        if c <= SUM_EXPAND:
            r = R.const(0)
            for k in range(c):
                r = r + subst(body, {v: I.const(k)})
            return r
    VAREXT[v] = ext
    return sum_binders(((v, ext),), body)


def peel(r, nonneg, limit=4):
    """sums over extents that differ by a small constant, brought to the smallest one:
    SUM_{<e + c} f = SUM_{<e} f + f(e) + ... + f(e + c - 1)   (for 0 <= e)"""
    groups = {}
    for c, (bs, fs) in r.t.values():
        for v, e in bs:
            k = e.t[()][0] if () in e.t else 0
            groups.setdefault(h(e - k), []).append((k, e - k))
    low = {g: min(k for k, _ in xs) for g, xs in groups.items() if len({k for k, _ in xs}) > 1}
    if not low:
        return r
    acc = R({})
    for key, (c, (bs, fs)) in r.t.items():
        for v, e in bs:
            k = e.t[()][0] if () in e.t else 0
            g = h(e - k)
            d = k - low.get(g, k)
            if 0 < d <= limit and nonneg(e - d):
                rest = [b for b in bs if b[0] != v]
                body = R.const(c)
                for n, p in fs:
                    body = body * (lift(n) ** p)
                m = fresh("pl")
                acc = acc + sum_binders(tuple(rest), r_sum(m, e - d, subst(body, {v: I.var(m, e - d)})))
                for t in range(d):
                    acc = acc + sum_binders(tuple(rest), subst(body, {v: e - d + t}))
                break
        else:
            acc = acc + R({key: (c, (bs, fs))})
    return acc


def peel_goal(g, nonneg):
    if g.op == "cmp" and isinstance(g.a[1], R):
        d = g.a[1]
        for _ in range(4):
            d2 = peel(d, nonneg)
            if d2 is d or h(d2) == h(d):
                break
            d = d2
        return cmp(g.a[0], d, R.const(0))
    if g.op == "not":
        return bnot(peel_goal(g.a[0], nonneg))
    if g.op == "and":
        return band(*[peel_goal(x, nonneg) for x in g.a])
    if g.op == "or":
        return bor(*[peel_goal(x, nonneg) for x in g.a])
    return g


def lift(n):
    return n if isinstance(n, R) else R.of(n)


def r_of_I(x):
    acc = Acc()
    for c, at in x.t.values():
        acc.add_norm(Fraction(c), (), tuple((N("ri", n), F1) for n in at))
    return acc.result()


def known_pos(n):
    """atom provably > 0 (structurally)"""
    op = n.op
    if op == "el":
        t = n.a[0]
        return t.op == "ts" and TENSOR.get(t.a[0], {}).get("pos", False)
    if op == "ri":
        m = n.a[0]
        return m.op == "iv" and POSDIM(m.a[0]) or m.op == "ia" and m.a[0] == "size"
    if op == "ts":
        return TENSOR.get(n.a[0], {}).get("pos", False)
    if op == "par":
        return r_pos(n.a[0])
    if op == "ap":
        return n.a[0] == "exp" or n.a[0].startswith("pospdf:") or (n.a[0] in ("ipow", "erf", "erfinv") and r_pos(n.a[1]))
    if op == "red":
        return r_pos(n.a[1].a[1])
    if op == "ite":
        return r_pos(n.a[1]) and r_pos(n.a[2])
    if op == "c":
        return n.a[0] in ("pi", "eps", "tiny")
    return False


POSDIMS = set()


def POSDIM(name):
    return name in POSDIMS


def r_pos(r):
    if not r.t:
        return False
    for c, (bs, fs) in r.t.values():
        if c <= 0:
            return False
        for n, q in fs:
            if not known_pos(n):
                return False
        for _, e in bs:
            ce = e.cval()
            if not (ce is not None and ce > 0) and not (e.as_var() and POSDIM(e.as_var())):
                return False
    return True


def r_pow(r, q):
    if q == 1:
        return r
    if q == 0:
        return R.const(1)
    if q.denominator == 1 and q > 0:
        res = R.const(1)
        b = r
        k = int(q)
        while k:
            if k & 1:
                res = res * b
            k >>= 1
            if k:
                b = b * b
        return res
    c = r.cval()
    if c is not None:
        if c == 0:
            if q > 0:
                return R.const(0)
            return R.atom(N("ap", "div0", R.const(0)))
        if q.denominator == 1:
            return R.const(c ** int(q))
        rt = frac_root(c, q)
        if rt is not None:
            return R.const(rt)
        if c > 0:
            ip = q.numerator // q.denominator
            return R.atom(N("par", R.const(c)), q - ip).scale(c ** ip)
        return R.atom(N("par", r), q)
    if len(r.t) == 1:
        (c, (bs, fs)), = r.t.values()
        if not bs:
            if q.denominator == 1:
                acc = Acc()
                acc.add_norm(c ** int(q), (), tuple((n, e * q) for n, e in fs))
                return acc.result()
            pos = [(n, e) for n, e in fs if known_pos(n)]
            oth = [(n, e) for n, e in fs if not known_pos(n)]
            if c > 0 and (pos or c != 1) :
                acc = Acc()
                acc.add_norm(F1, (), tuple((n, e * q) for n, e in pos))
                res = acc.result() * r_pow(R.const(c), q)
                if oth:
                    acc2 = Acc()
                    acc2.add_norm(F1, (), tuple(oth))
                    res = res * R.atom(N("par", acc2.result()), q)
                return res
            return R.atom(N("par", r), q)
    # extract content
    g = None
    for c, _ in r.t.values():
        g = abs(c) if g is None else _fgcd(g, abs(c))
    common = None
    for c, (bs, fs) in r.t.values():
        d = {h(n): (n, e) for n, e in fs
             if not (fv(n) & {v for v, _ in bs}) and (q.denominator == 1 or known_pos(n))}
        if common is None:
            common = d
        else:
            nd = {}
            for k, (n, e) in common.items():
                if k in d:
                    e2 = d[k][1]
                    if (e > 0) == (e2 > 0):
                        nd[k] = (n, min(e, e2) if e > 0 else max(e, e2))
            common = nd
    cf = tuple(common.values()) if common else ()
    if cf or g != 1:
        inv = Acc()
        inv.add_norm(1 / g, (), tuple((n, -e) for n, e in cf))
        rest = r * inv.result()
        f = Acc()
        f.add_norm(F1, (), tuple((n, e * q) for n, e in cf))
        fr = f.result() * r_pow(R.const(g), q)
        if len(rest.t) == 1 and rest.cval() is not None:
            return fr * r_pow(rest, q)
        return fr * R.atom(N("par", rest), q)
    return R.atom(N("par", r), q)


def _fgcd(a, b):
    from math import gcd
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator),
                    a.denominator * b.denominator)


def frac_root(c, q):
    if c < 0:
        return None
    d = q.denominator

    def iroot(n):
        r = round(n ** (1.0 / d))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** d == n:
                return x
        return None

    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** q.numerator


# ----------------------------------------------------------------- booleans

TRUE = N("true")
FALSE = N("false")
BOOLOPS = {"true", "false", "cmp", "and", "or", "not", "forall", "exists", "bt"}


def is_bool(n):
    return isinstance(n, N) and n.op in BOOLOPS


def cmp(op, a, b):
    """op in < <= == != ; a,b I or R"""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if not (isinstance(a, I) and isinstance(b, I)):
        a, b = R.of(a), R.of(b)
    d = a - b
    c = d.cval()
    if c is not None:
        return TRUE if {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op] else FALSE
    if isinstance(d, R):
        di = d.as_I()
        if di is not None:
            d = di
    if isinstance(d, R):
        if r_pos(d):
            return FALSE if op in ("<", "<=", "==") else TRUE
        if r_pos(-d):
            return TRUE if op in ("<", "<=", "!=") else FALSE
        if len(d.t) == 1:
            # the sign of a product does not depend on its positive factors
            (c, (bs, fs)), = d.t.values()
            keep = tuple((n, q) for n, q in fs if not known_pos(n) or bs and any(v in fv(n) for v, _ in bs))
            if len(keep) < len(fs):
                acc = Acc()
                acc.add_norm(c, bs, keep)
                return cmp(op, acc.result(), R.const(0))
    if op == "!=":
        return N("not", _cmpn("==", d))
    return _cmpn(op, d)


def _cmpn(op, d):
    if op == "==":
        nd = -d
        if h(nd) < h(d):
            d = nd
    return N("cmp", op, d)


def bnot(x):
    if x.op == "true":
        return FALSE
    if x.op == "false":
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "cmp" and x.a[0] in ("<", "<="):
        return N("cmp", "<=" if x.a[0] == "<" else "<", -x.a[1])
    if x.op == "and":
        return bor(*[bnot(y) for y in x.a])
    if x.op == "or":
        return band(*[bnot(y) for y in x.a])
    if x.op == "forall":
        lam = x.a[0]
        return N("exists", N("lam", lam.a[0], bnot(lam.a[1])))
    if x.op == "exists":
        lam = x.a[0]
        return N("forall", N("lam", lam.a[0], bnot(lam.a[1])))
    return N("not", x)


def band(*xs):
    out = {}
    for x in xs:
        if x.op == "false":
            return FALSE
        if x.op == "true":
            continue
        for y in (x.a if x.op == "and" else (x,)):
            out[h(y)] = y
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return N("and", *out.values())


def bor(*xs):
    out = {}
    for x in xs:
        if x.op == "true":
            return TRUE
        if x.op == "false":
            continue
        for y in (x.a if x.op == "or" else (x,)):
            out[h(y)] = y
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return N("or", *out.values())


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if isinstance(a, N) and is_bool(a):
        return bor(band(c, a), band(bnot(c), b))
    if isinstance(a, I) and isinstance(b, I):
        if a == b:
            return a
        return I.atom(N("ia", "ite", c, a, b))
    a, b = R.of(a), R.of(b)
    if a == b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    return R.atom(N("ite", c, a, b))


def lam(vs, body):
    """vs: list of (name, ext)"""
    return N("lam", tuple(vs), body)


def forall(v, ext, body):
    c = ext.cval()
    if c is not None and c <= SUM_EXPAND:
        return band(*[subst(body, {v: I.const(k)}) for k in range(c)])
    if body.op in ("true", "false") and body.op == "true":
        return TRUE
    VAREXT[v] = ext
    return N("forall", lam([(v, ext)], body))


def exists(v, ext, body):
    return bnot(forall(v, ext, bnot(body)))


# ----------------------------------------------------------------- substitution

class _All:
    @staticmethod
    def isdisjoint(o):
        return False


class SeqMapBase(dict):
    """a substitution of sequence atoms (see loops.py)"""


HAS_SEQ = {}


def has_seq(x):
    """does x mention a sequence of the loop rule?"""
    k = h(x)
    r = HAS_SEQ.get(k)
    if r is None:
        found = []

        def f(n):
            if n.op == "ts" and n.a[0].startswith("seq~"):
                found.append(1)
        walk(x, f)
        r = HAS_SEQ[k] = bool(found)
    return r


def _untouched(x, m):
    if isinstance(m, SeqMapBase):
        return not has_seq(x)
    return m.keys().isdisjoint(fv(x))


def _mono_untouched(mo, m):
    if isinstance(m, SeqMapBase):
        return not (any(has_seq(n) for n, _ in mo[1]) or any(has_seq(e) for _, e in mo[0]))
    return m.keys().isdisjoint(mono_fv(mo))


class Resolve(dict):
    """a substitution that leaves variables alone and replaces decided conditions (hash -> bool)"""

    def __init__(self, conds):
        dict.__init__(self)
        self.conds = conds

    def keys(self):
        return _All

    def __missing__(self, k):
        return I.var(k)


def open_conditions(x):
    """conditions of case distinctions in x that mention no bound variable"""
    free = fv(x)
    out = {}

    def f(n):
        c = None
        if n.op == "ite":
            c = n.a[0]
        elif n.op == "ia" and n.a[0] == "ite":
            c = n.a[1]
        if c is not None and fv(c) <= free and all(v.op not in ("ite",) for v in ()):
            for d in (c.a if c.op in ("and", "or") else (c,)):
                d = d.a[0] if d.op == "not" else d
                if d.op == "cmp":
                    out.setdefault(h(d), d)
    walk(x, f)
    return list(out.values())


def subst(x, m):
    """replace index variables (dict name -> I)"""
    if isinstance(x, (I, R, N)):
        if _untouched(x, m):
            return x
    elif isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    else:
        return x
    if isinstance(x, I):
        r = I.const(0)
        for c, at in x.t.values():
            p = I.const(c)
            for n in at:
                s = subst(n, m)
                p = p * (s if isinstance(s, I) else I.atom(s))
            r = r + p
        return r
    if isinstance(x, R):
        res = R.const(0)
        vals_fv = None
        for c, (bs, fs) in x.t.values():
            if _mono_untouched((bs, fs), m):
                res = res + R({mono_hash((bs, fs)): (c, (bs, fs))})
                continue
            if bs:
                if vals_fv is None:
                    vals_fv = set()
                    for val in m.values():
                        vals_fv |= fv(val)
                if isinstance(m, SeqMapBase) or any(v in vals_fv or v in m for v, _ in bs):
                    bs, fs = rename_binders(bs, fs)
                if any(not _untouched(e, m) for _, e in bs):
                    # extents change: rebuild through r_sum
                    p = R.const(c)
                    for n, q in fs:
                        p = p * (lift(subst(n, m)) ** q)
                    for v, e in bs:
                        p = r_sum(v, subst(e, m), p)
                    res = res + p
                    continue
            nf = []
            p = None
            for n, q in fs:
                s = subst(n, m)
                if isinstance(s, N):
                    nf.append((s, q))
                else:
                    s = s ** q
                    p = s if p is None else p * s
            if p is None:
                acc = Acc()
                acc.add_norm(c, bs, tuple(nf))
                res = res + acc.result()
            else:
                acc = Acc()
                acc.add_norm(c, (), tuple(nf))
                res = res + sum_binders(bs, acc.result() * p)
        return res
    op = x.op
    if op == "iv":
        return m[x.a[0]]
    if op == "lam":
        vs, body = x.a
        m2 = m if isinstance(m, (Resolve, SeqMapBase)) else {k: v for k, v in m.items() if k not in {w for w, _ in vs}}
        vals_fv = set()
        for val in m2.values():
            vals_fv |= fv(val)
        if any(w in vals_fv for w, _ in vs):
            ren = {}
            nvs = []
            for w, e in vs:
                nw = fresh("l")
                VAREXT[nw] = e
                ren[w] = I.var(nw)
                nvs.append((nw, e))
            body = subst(body, ren)
            vs = tuple(nvs)
        nvs = []
        for w, e in vs:
            e2 = subst(e, m2)
            nvs.append((w, e2))
            if e2 is not e:
                VAREXT[w] = e2
        return N("lam", tuple(nvs), subst(body, m2))
    if op == "ri":
        s = subst(x.a[0], m)
        return R.of(s)
    if op == "ite":
        return ite(subst(x.a[0], m), subst(x.a[1], m), subst(x.a[2], m))
    if op == "del":
        return N("del", subst(x.a[0], m), subst(x.a[1], m))
    if op == "cmp":
        if isinstance(m, Resolve) and h(x) in m.conds:
            return TRUE if m.conds[h(x)] else FALSE
        d = subst(x.a[1], m)
        return cmp(x.a[0], d, I.const(0) if isinstance(d, I) else R.const(0))
    if op == "and":
        return band(*[subst(y, m) for y in x.a])
    if op == "or":
        return bor(*[subst(y, m) for y in x.a])
    if op == "not":
        return bnot(subst(x.a[0], m))
    if op in ("forall", "exists"):
        l2 = subst(x.a[0], m)
        (v, e), = l2.a[0]
        return forall(v, e, l2.a[1]) if op == "forall" else exists(v, e, l2.a[1])
    if op == "red":
        l2 = subst(x.a[1], m)
        (v, e), = l2.a[0]
        return r_red(x.a[0], v, e, l2.a[1])
    if op == "el" and isinstance(m, SeqMapBase) and x.a[0].op == "ts":
        args = tuple(subst(y, m) for y in x.a[1:])
        r = m.value(x.a[0].a[0], args)
        return r if r is not None else N("el", x.a[0], *args)
    if op == "el" and x.a[0].op == "op" and len(x.a[0].a) == 3 and x.a[0].a[1] == () and len(x.a) == 3:
        # the orientation of f(A) = f(A^T)^T is chosen by the term, which changes
        o = subst(x.a[0], m)
        i, j = subst(x.a[1], m), subst(x.a[2], m)
        l1 = o.a[2]
        l2 = N("lam", (l1.a[0][1], l1.a[0][0]), l1.a[1])
        h1, h2 = h(l1), h(l2)
        if h1 == h2:
            return N("el", N("op", o.a[0], ("sym",), l1), i, j)
        if h2 < h1:
            return N("el", N("op", o.a[0], (), l2), j, i)
        return N("el", o, i, j)
    if op == "ia":
        f = x.a[0]
        args = tuple(subst(y, m) for y in x.a[1:])
        if f == "sq" and isinstance(m, SeqMapBase):
            r = m.value(args[0].a[0], args[1:])
            if r is not None:
                i = I.of(r) if not isinstance(r, R) else r.as_I()
                if i is not None:
                    return i
        if f == "div":
            return i_div(*args)
        if f == "mod":
            return i_mod(*args)
        if f == "ite":
            return ite(*args)
        if f == "nth":
            return i_nth(*args)
        return I.atom(N("ia", f, *args))
    if op == "par":
        return subst(x.a[0], m)
    return N(op, *[subst(y, m) for y in x.a])


# ----------------------------------------------------------------- int div/mod

def _split_by(e, d):
    """e = q*d + r with the terms divisible by d (syntactically) in q"""
    cd = d.cval()
    q = I.const(0)
    r = I.const(0)
    if cd is not None:
        for k, (c, at) in e.t.items():
            qq, rr = divmod(c, cd)
            if at:
                if rr == 0:
                    q = q + I({k: (qq, at)})
                else:
                    r = r + I({k: (c, at)})
            else:
                if qq:
                    q = q + qq
                r = r + rr
        return q, r
    if len(d.t) == 1:
        (dk, (dc, dat)), = d.t.items()
        for k, (c, at) in e.t.items():
            rest = list(zip(k, at))
            ok = True
            for hk in dk:
                for i, (kk, _) in enumerate(rest):
                    if kk == hk:
                        rest.pop(i)
                        break
                else:
                    ok = False
                    break
            if ok and c % dc == 0:
                q = q + I({tuple(x[0] for x in rest): (c // dc, tuple(x[1] for x in rest))})
            else:
                r = r + I({k: (c, at)})
        return q, r
    for k, (c, at) in d.t.items():
        if c != 1 or len(at) != 1 or sum(k[0] in k2 for k2 in d.t) != 1:
            continue
        # polynomial division, main variable at[0]
        q, r = I.const(0), e
        for _ in range(20):
            top = None
            for k2, (c2, at2) in r.t.items():
                if k[0] in k2:
                    top = (k2, c2, at2)
                    break
            if top is None:
                break
            k2, c2, at2 = top
            i = k2.index(k[0])
            f = I({k2[:i] + k2[i + 1:]: (c2, at2[:i] + at2[i + 1:])})
            q, r = q + f, r - f * d
        if top is None and q.t and (not r.t or in_range(r, d)):
            return q, r
    return I.const(0), e


def i_div(e, d):
    e, d = I.of(e), I.of(d)
    ce, cd = e.cval(), d.cval()
    if cd == 1:
        return e
    if ce is not None and cd is not None:
        return I.const(ce // cd)
    q, r = _split_by(e, d)
    if r.t and len(d.t) == 1:
        # floor((t q + s)/(t f)) = floor(q/f) for 0 <= s < t
        (dk, (dc, dat)), = d.t.items()
        if dc == 1 and len(dat) >= 2:
            for n in dat:
                f = I.atom(n)
                qf, rf = _split_by(r, f)
                if qf.t and (not rf.t or in_range(rf, f)):
                    return q + i_div(qf, _split_by(d, f)[0])
    # combine  (k//d)*d + k%d
    if not r.t or in_range(r, d):       # divisors are positive wherever a division is built
        return q
    if q.t:
        return q + i_div(r, d)
    return I.atom(N("ia", "div", e, d))


def i_nth(l, j):
    """the j-th position at which l holds; the rank of a position at which it holds leads back to it"""
    if len(j.t) == 1:
        (c, at), = j.t.values()
        if c == 1 and len(at) == 1 and at[0].op == "ia" and at[0].a[0] == "rank" and h(at[0].a[1]) == h(l):
            return at[0].a[2]
    return I.atom(N("ia", "nth", l, j))


def i_mod(e, d):
    e, d = I.of(e), I.of(d)
    ce, cd = e.cval(), d.cval()
    if cd == 1:
        return I.const(0)
    if ce is not None and cd is not None:
        return I.const(ce % cd)
    q, r = _split_by(e, d)
    if in_range(r, d):
        return r
    # (x div d)*d terms are gone already; canonical: mod via div
    # e mod d = r - d*(r div d)
    return r - d * i_div(r, d)


# ----------------------------------------------------------------- reductions

def r_red(kind, v, ext, body):
    c = ext.cval()
    body = R.of(body)
    if kind == "prod":
        if c is not None and c <= SUM_EXPAND:
            r = R.const(1)
            for k in range(c):
                r = r * subst(body, {v: I.const(k)})
            return r
        if v not in fv(body):
            return ipow(body, ext)
        if len(body.t) == 1:
            (co, (bs, fs)), = body.t.values()
            if not bs:
                r = R.const(1)
                if co != 1:
                    r = r * ipow(R.const(co), ext)
                for n, q in fs:
                    if v in fv(n):
                        VAREXT[v] = ext
                        r = r * R.atom(N("red", "prod", lam([(v, ext)], R.atom(n))), q)
                    else:
                        r = r * ipow(R.atom(n, q), ext)
                return r
        VAREXT[v] = ext
        return R.atom(N("red", "prod", lam([(v, ext)], body)))
    if v not in fv(body):
        return body
    if c == 1:
        return subst(body, {v: I.const(0)})
    if c is not None and 1 < c <= 4:
        r = subst(body, {v: I.const(0)})
        for k in range(1, c):
            b = subst(body, {v: I.const(k)})
            r = ite(cmp("<=", r, b), *((r, b) if kind == "min" else (b, r)))
        return r
    VAREXT[v] = ext
    # min/max distribute over positive scaling and translation by v-free terms
    free = R.const(0)
    dep = R.const(0)
    for k, (co, m) in body.t.items():
        if v in mono_fv(m):
            dep = dep + R({k: (co, m)})
        else:
            free = free + R({k: (co, m)})
    if free.t:
        return free + r_red(kind, v, ext, dep)
    if len(dep.t) == 1:
        (co, m), = dep.t.values()
        if co != 1:
            k2 = kind if co > 0 else ("min" if kind == "max" else "max")
            return r_red(k2, v, ext, dep.scale(1 / co)).scale(co)
    return R.atom(N("red", kind, lam([(v, ext)], body)))


def ipow(b, e):
    """b ** e, e a non-negative integer term"""
    b = R.of(b)
    if b.cval() == 1:
        return b
    c = e.cval()
    if c is not None:
        return b ** c
    if b.cval() == 0 and e.as_var() and POSDIM(e.as_var()):
        return R.const(0)
    return R.atom(N("ap", "ipow", b, e))


def clear_denoms(r, rounds=6):
    """multiply by the parenthesised denominators until none is left; r == 0 iff result == 0
    (given the denominators are non-zero)"""
    for _ in range(rounds):
        worst = {}
        for c, (bs, fs) in r.t.values():
            bnames = {v for v, _ in bs}
            for n, q in fs:
                if q < 0 and n.op == "par" and not (fv(n) & bnames):
                    k = h(n)
                    if k not in worst or q < worst[k][1]:
                        worst[k] = (n, q)
        if not worst:
            return r
        for n, q in worst.values():
            r = r * R.atom(n, -q)
    return r


def walk(x, f):
    """call f on every N node (pre-order)"""
    if isinstance(x, I):
        for _, at in x.t.values():
            for n in at:
                walk(n, f)
    elif isinstance(x, R):
        for _, (bs, fs) in x.t.values():
            for _, e in bs:
                walk(e, f)
            for n, _ in fs:
                walk(n, f)
    elif isinstance(x, N):
        f(x)
        for y in x.a:
            walk(y, f)
    elif isinstance(x, tuple):
        for y in x:
            walk(y, f)
