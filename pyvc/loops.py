"""Lists of symbolic length and the loop rule.

A loop over a symbolic extent n is executed twice:
  * iteration 0 on the real state (the base case);
  * iteration k + 1 for a generic k, on an arbitrary state of the shape iteration 0 left: every
    carried cell (local variable, attribute, array, list that grows) is read as X[k], the value at the
    end of iteration k of a sequence X that is otherwise unknown.
What the second execution leaves in the cell defines the sequence: X[0] = base, X[k + 1] = step(k, X[k]).
After the loop a cell holds X[n - 1].  Nothing is guessed: the definition is the code's own; it is refused
(Unsupported) when iterations change other objects, append another number of elements, change the shape of
a cell, draw random numbers or draw on axes.  A branch that depends on the iteration is followed when one of its
sides leaves the loop by an exception: then either all iterations take the other side, or some iteration raises."""
import copy
import types

from . import terms as T
from . import symnp as S
from .terms import I, R, N, h, cmp, band
from .ctx import ctx, Static, Unsupported, prog_raise, SymInt, SymReal, SymBool, mkint, to_R, to_I, to_B

C0, C1 = I.const(0), I.const(1)


class Dropped(BaseException):
    """this path explores an exit that is not taken"""


# ------------------------------------------------------------------ sequences

class Seq:
    """X[p][idx]; outer: generic positions of enclosing loops it also depends on"""

    def __init__(self, outer, exts, kind):
        self.name = T.fresh("seq")
        self.ts = N("ts", self.name)
        self.outer = tuple(outer)
        self.kind = kind
        self.idx = []
        for e in exts:
            v = T.fresh("sx")
            T.VAREXT[v] = e
            self.idx.append(v)
        self.base = self.step = self.closed = self.alias = None
        self.absorbed = self.whole = False
        self.k = None
        c = ctx()
        c.seqs[self.name] = self
        c.seqmemo = {}

    def term(self, p, idx, outer=None):
        o = tuple(I.var(v) for v in self.outer) if outer is None else tuple(outer)
        idx = tuple(I.of(i) for i in idx)
        if self.kind == "i":
            return R.of(I.atom(N("ia", "sq", self.ts, *o, I.of(p), *idx)))
        return R.atom(N("el", self.ts, *o, I.of(p), *idx))


class SeqMap(T.SeqMapBase):
    """resolves sequence atoms by their definitions"""

    def __init__(self, unfold=False):
        super().__init__()
        self.unfold = unfold

    def value(self, name, args):
        """definition of the atom, or None to leave it"""
        s = ctx().seqs.get(name)
        if s is None:
            return None
        no = len(s.outer)
        outer, p, idx = args[:no], args[no], args[no + 1:]
        m = dict(zip(s.outer, outer))
        m.update(zip(s.idx, idx))
        if s.alias is not None:
            return T.subst(s.alias.term(p, idx, outer), self)
        if s.base is None:
            return None
        c = p.cval()
        if c == 0 and not (s.closed is not None and s.absorbed):
            return T.subst(T.subst(s.base, m), self)
        if s.closed is not None:
            m[s.k] = p - 1
            r = T.subst(s.closed, m)
            if s.absorbed:
                return T.subst(r, self)
            kn = _known(cmp("<=", C1, p))
            if kn:
                return T.subst(r, self)
            b = T.subst(T.subst(s.base, m), self)
            r = T.subst(r, self)
            if isinstance(r, I) or isinstance(b, I):
                return None
            return T.ite(cmp("==", p, C0), b, r)
        if self.unfold and s.step is not None:
            if _known(cmp("<=", C1, p)):
                m[s.k] = p - 1
                return T.subst(s.step, m)
            if _known(cmp("==", p, C0)):
                return T.subst(T.subst(s.base, m), self)
        return None


def _known(b):
    """provable from the path condition (index variables in range)"""
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    c = ctx()
    k = ("sqk", h(b))
    if k not in c.seqmemo:
        from .ctx import _intonly
        from . import smt
        pcs = [p for p in c.pc if _intonly(p)]
        c.seqmemo[k] = smt.check_sat(pcs, [T.bnot(b)], 800)[0] == "unsat"
    return c.seqmemo[k]


def resolve(x, unfold=False):
    c = ctx()
    if not T.has_seq(x):
        return x
    key = (h(x), unfold)
    if key not in c.seqmemo:
        c.seqmemo[key] = T.subst(x, SeqMap(unfold))
    return c.seqmemo[key]


def decided(x):
    """case distinctions that the path condition decides, resolved"""
    d = {}
    for c in T.open_conditions(x)[:8]:
        if _known(c):
            d[h(c)] = True
        elif _known(T.bnot(c)):
            d[h(c)] = False
    return T.subst(x, T.Resolve(d)) if d else x


def undefined(x):
    """does the term mention a sequence without definition (a loop left early)?"""
    found = []

    def f(n):
        if n.op == "el" and n.a[0].op == "ts" or n.op == "ia" and n.a[0] == "sq":
            nm = (n.a[0] if n.op == "el" else n.a[1]).a[0]
            s = ctx().seqs.get(nm)
            if s is not None and s.base is None and s.alias is None:
                found.append(nm)
    T.walk(x, f)
    return bool(found)


def recursive(x):
    """does the term mention a sequence that has a definition but no closed form?"""
    found = []

    def f(n):
        if n.op == "el" and n.a[0].op == "ts" or n.op == "ia" and n.a[0] == "sq":
            nm = (n.a[0] if n.op == "el" else n.a[1]).a[0]
            s = ctx().seqs.get(nm)
            if s is not None and s.closed is None and s.alias is None:
                found.append(nm)
    T.walk(x, f)
    return bool(found)


def same_sequences():
    """sequences with the same first value and the same step are the same sequence (induction over the iterations, for
    all of them at once): the coarsest partition in which the members of a class have equal definitions when the
    sequences of a class are taken to be equal.  True when two were identified"""
    c = ctx()
    todo = [q for q in c.seqs.values() if q.alias is None and q.closed is None and q.base is not None and q.step is not None]
    if len(todo) < 2 or len(todo) > 60:
        return False
    part = {}
    for q in todo:
        part.setdefault((q.kind, len(q.outer), len(q.idx)), []).append(q)
    part = list(part.values())

    def like(x, y):
        ren = {**dict(zip(y.outer, map(I.var, x.outer))), **dict(zip(y.idx, map(I.var, x.idx)))}
        for i, j in zip(x.outer + tuple(x.idx), y.outer + tuple(y.idx)):
            ei, ej = T.VAREXT.get(i), T.VAREXT.get(j)
            if ei is None or ej is None or c.norm(T.subst(ej, ren)) != c.norm(ei):
                return False
        ren[y.k] = I.var(x.k)
        return c.norm(T.subst(y.base, ren)) == c.norm(x.base) and c.norm(T.subst(y.step, ren)) == c.norm(x.step)

    while True:
        for cl in part:
            for y in cl[1:]:
                y.alias = cl[0]
        c.seqmemo = {}
        new = []
        for cl in part:
            same = [y for y in cl[1:] if like(cl[0], y)]
            rest = [y for y in cl[1:] if y not in same]
            new.append([cl[0]] + same)
            if rest:
                new.append(rest)
        for q in todo:
            q.alias = None
        c.seqmemo = {}
        if len(new) == len(part):
            break
        part = new
    hit = False
    for cl in part:
        for y in cl[1:]:
            y.alias = cl[0]
            hit = True
    c.seqmemo = {}
    return hit


# ------------------------------------------------------------------ shapes of values

class Other:
    """a value the rule does not abstract"""

    def __init__(self, v):
        self.v = v


def _num(v):
    return isinstance(v, (int, float, SymInt, SymReal)) and not isinstance(v, (bool, SymBool))


class Tree:
    """shape of a value, with one sequence per numeric leaf"""

    def __init__(self, v, outer, jvars=(), jexts=()):
        self.jvars, self.jexts = tuple(jvars), tuple(jexts)
        self.seq = None
        if isinstance(v, S.SymArray) and v.kind in "fi":
            self.op, self.shape, self.kind = "a", v._shape, v.kind
            self.seq = Seq(outer, self.jexts + tuple(v._shape), v.kind)
        elif _num(v):
            self.op, self.kind = "s", "i" if isinstance(v, (int, SymInt)) else "f"
            self.seq = Seq(outer, self.jexts, self.kind)
        elif isinstance(v, tuple) and not isinstance(v, list):
            self.op = "t"
            self.kids = [Tree(x, outer, jvars, jexts) for x in v]
        elif isinstance(v, (list, S.SymList)):
            self.op = "l"
            sg = segs_of(v)
            self.n = seg_len(sg)
            self.j = T.fresh("sj")
            T.VAREXT[self.j] = self.n
            self.kid = None
            for s in sg:
                try:
                    smp = s.samples()
                except Unsupported:         # objects
                    self.op, self.v = "o", v
                    return
                for e in smp:
                    t = Tree(e, outer, self.jvars + (self.j,), self.jexts + (self.n,))
                    if self.kid is None:
                        self.kid = t
                    elif not self.kid.same(t):
                        self.op, self.v = "o", v
                        return
            if self.kid is None:
                self.op, self.v = "o", v
        else:
            self.op, self.v = "o", v

    def same(self, t):
        if self.op != t.op:
            return False
        if self.op == "a":
            return len(self.shape) == len(t.shape) and self.kind == t.kind and all(same_ext(a, b) for a, b in zip(self.shape, t.shape))
        if self.op == "s":
            return self.kind == t.kind
        if self.op == "t":
            return len(self.kids) == len(t.kids) and all(a.same(b) for a, b in zip(self.kids, t.kids))
        if self.op == "l":
            return same_ext(self.n, t.n) and self.kid.same(t.kid)
        return False

    def numeric(self):
        if self.op == "t":
            return all(k.numeric() for k in self.kids)
        if self.op == "l":
            return self.kid.numeric()
        return self.op in ("a", "s")

    def leaves(self):
        if self.op == "t":
            return [s for k in self.kids for s in k.leaves()]
        if self.op == "l":
            return self.kid.leaves()
        return [self.seq] if self.seq is not None else []

    def make(self, p, js=(), outer=None):
        """the placeholder value at position p"""
        if self.op == "a":
            q, m = self.seq, dict(zip(self.jvars, js))
            return S.SymArray(tuple(T.subst(s, m) for s in self.shape), lambda i: q.term(p, tuple(js) + tuple(i), outer), self.kind)
        if self.op == "s":
            r = self.seq.term(p, js, outer)
            if self.kind == "i":
                return mkint(r.as_I())
            return SymReal(r)
        if self.op == "t":
            return tuple(k.make(p, js, outer) for k in self.kids)
        if self.op == "l":
            return S.SymList(self.n, lambda j: self.kid.make(p, tuple(js) + (I.of(j),), outer))
        return self.v

    def terms(self, v):
        """[(leaf sequence, term of v at the leaf's index variables)] or None if v has another shape"""
        if self.op == "a":
            if not isinstance(v, S.SymArray) or v.kind != self.kind or v.ndim != len(self.shape):
                return None
            if not all(same_ext(a, b) for a, b in zip(v._shape, self.shape)):
                return None
            return [(self.seq, v.getter()(tuple(I.var(x) for x in self.seq.idx[len(self.jvars):])))]
        if self.op == "s":
            if not _num(v) or ("i" if isinstance(v, (int, SymInt)) else "f") != self.kind:
                return None
            return [(self.seq, R.of(to_I(v)) if self.kind == "i" else to_R(v))]
        if self.op == "t":
            if not isinstance(v, tuple) or len(v) != len(self.kids):
                return None
            out = []
            for k, x in zip(self.kids, v):
                t = k.terms(x)
                if t is None:
                    return None
                out += t
            return out
        if self.op == "l":
            if not isinstance(v, (list, S.SymList)):
                return None
            sg = segs_of(v)
            if not same_ext(seg_len(sg), self.n):
                return None
            # one term per segment, put together by position
            j = I.var(self.j)
            acc = None
            off = seg_len(sg)
            for s in reversed(sg):
                off = ctx().norm(off - s.n)
                for q in reversed(range(len(s.items)) if s.items is not None else [None]):
                    t = self.kid.terms(s.items[q] if q is not None else s.get(j - off))
                    if t is None:
                        return None
                    end = off + (q + 1 if q is not None else s.n)
                    # leaf index variables of list levels are those of the leaf sequence
                    if acc is None:
                        acc = t
                    else:
                        acc = [(a[0], T.ite(cmp("<", j, end), b[1], a[1])) for a, b in zip(acc, t)]
            # rename the list position to the leaf's own variable
            pos = len(self.jvars)
            return [(q, T.subst(t, {self.j: I.var(q.idx[pos])})) for q, t in acc]
        return []


def same_ext(a, b):
    c = ctx()
    a, b = c.norm(I.of(a)), c.norm(I.of(b))
    if a == b:
        return True
    return bool(_known(cmp("==", a, b)))


# ------------------------------------------------------------------ lists

class Seg:
    """part of a list: concrete items, or n elements get(0) ... get(n - 1)"""

    def __init__(self, items=None, n=None, get=None, loop=None):
        self.items = list(items) if items is not None else None
        self.n = I.const(len(self.items)) if items is not None else I.of(n)
        self._get = get
        self.loop = loop
        self.count = self.grow = None       # appended by a loop: number of iterations

    def get(self, i):
        if self.items is not None:
            c = ctx().norm(i).cval()
            if c is not None:
                return self.items[c]
            try:
                v = self.items[-1]
                for q in range(len(self.items) - 2, -1, -1):
                    v = merge(cmp("==", i, I.const(q)), self.items[q], v)
                return v
            except Unsupported:
                bs = [cmp("==", ctx().norm(i), I.const(q)) for q in range(len(self.items) - 1)]
                if any(generic_in(b) for b in bs):
                    raise
            for b, v in zip(bs, self.items):
                if ctx().decide(b):
                    return v
            return self.items[-1]
        return self._get(I.of(i))

    def samples(self):
        if self.items is not None:
            return list(self.items)
        v = T.fresh("li")
        return [self.get(I.var(v, self.n))]


def merge(c, a, b):
    """value that is a where c holds and b elsewhere"""
    if a is b:
        return a
    if isinstance(a, S.SymArray) and isinstance(b, S.SymArray) and a.kind == b.kind and a.ndim == b.ndim and \
            all(same_ext(x, y) for x, y in zip(a._shape, b._shape)):
        ga, gb = a.getter(), b.getter()
        return S.SymArray(a._shape, lambda i: T.ite(c, ga(i), gb(i)), a.kind)
    if _num(a) and _num(b):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            return mkint(T.ite(c, to_I(a), to_I(b)))
        return SymReal(T.ite(c, to_R(a), to_R(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (list, S.SymList)) and isinstance(b, (list, S.SymList)):
        sa, sb = segs_of(a), segs_of(b)
        if same_ext(seg_len(sa), seg_len(sb)):
            return S.SymList(seg_len(sa), lambda j: merge(c, segs_get(sa, j), segs_get(sb, j)))
    raise Unsupported("list element at an undetermined position")


def segs_of(x):
    if isinstance(x, PList):
        return x._segs()
    if isinstance(x, S.SymList):
        return [Seg(n=x.n, get=x.fn)]
    if isinstance(x, (list, tuple)):
        return [Seg(x)] if len(x) else []
    if isinstance(x, S.SymArray):
        c = ctx().norm(x._shape[0]).cval()
        if c is not None:
            return [Seg([x[q] for q in range(c)])] if c else []
        if x.ndim == 1:
            return [Seg(n=x._shape[0], get=lambda k: S.wrap_scalar(x.at(k), x.kind))]
        return [Seg(n=x._shape[0], get=lambda k: x[SymInt(k) if k.cval() is None else k.cval()])]
    if isinstance(x, types.GeneratorType) or hasattr(x, "__next__") or isinstance(x, (range, set, dict)):
        return segs_of(list(x))
    raise Unsupported("list operation with %s" % type(x).__name__)


def seg_len(sg):
    n = C0
    for s in sg:
        n = n + s.n
    return ctx().norm(n)


def generic_in(b):
    c = ctx()
    return any(v not in T.POSDIMS and v not in c.consts and not v.startswith("ex_") for v in T.fv(b))


def segs_get(sg, i):
    """element at a position known to be in range"""
    c = ctx()
    i = c.norm(I.of(i))
    off = C0
    rest = None
    for q, s in enumerate(sg):
        end = c.norm(off + s.n)
        if q == len(sg) - 1:
            return s.get(c.norm(i - off))
        b = c.norm(cmp("<", i, end))
        kn = c.known(b)
        if kn is None:
            if generic_in(b):
                return merge(b, s.get(c.norm(i - off)), segs_get_from(sg, q + 1, end, i))
            kn = c.decide(b)
        if kn:
            return s.get(c.norm(i - off))
        off = end
    raise Unsupported("empty list")


def segs_get_from(sg, q, off, i):
    c = ctx()
    return segs_get(sg[q:], c.norm(i - off))


def select(L, keep):
    """the elements of a list that satisfy keep; what a loop appended is selected iteration by iteration"""
    out = []
    for s in segs_of(L):
        if s.items is not None:
            out.append(Seg([x for x in s.items if keep(x)]))
            continue
        g = s.grow
        if g is None or g.tree is not None:
            raise Unsupported("selection from a list of symbolic length")
        r = Grow.__new__(Grow)
        r.loop, r.tree, r.first, r.cur = g.loop, None, select(g.first, keep), select(g.cur, keep)
        r.b = seg_len(segs_of(r.first))
        if not same_ext(r.b, seg_len(segs_of(r.cur))):
            raise Unsupported("selection depends on the iteration")
        if r.b.cval() != 0:
            out.append(r.all(s.count))
    r = PList()
    r._set([s for s in out if s.items is None or s.items])
    return r


def _sym_unsupported(name):
    base = getattr(list, name)

    def f(self, *a, **k):
        if self.sg is not None:
            raise Unsupported("list.%s on a list of symbolic length" % name)
        return base(self, *a, **k)
    f.__name__ = name
    return f


class PList(list):
    """the lists made by the code: concrete until a loop or an extension makes the length symbolic"""
    _pyvc_plist = True
    sg = None
    __hash__ = None

    def _segs(self):
        if self.sg is not None:
            return list(self.sg)
        n = list.__len__(self)
        return [Seg([list.__getitem__(self, k) for k in range(n)])] if n else []

    def _set(self, sg):
        """content as segments; back to a plain list where possible"""
        if all(s.items is not None for s in sg):
            items = [x for s in sg for x in s.items]
            self.sg = None
            list.__setitem__(self, slice(None), items)
            return
        list.clear(self)
        self.sg = [s for s in sg if s.n.cval() != 0]

    @property
    def symbolic(self):
        return self.sg is not None

    def _len(self):
        return mkint(seg_len(self._segs()))

    def symlist(self):
        sg = self._segs()
        if len(sg) == 1 and sg[0].items is None:
            return S.SymList(sg[0].n, sg[0].get)
        return S.SymList(seg_len(sg), lambda i: segs_get(sg, i))

    def append(self, x):
        if self.sg is None:
            return list.append(self, x)
        sg = self.sg
        if sg and sg[-1].items is not None:
            self.sg = sg[:-1] + [Seg(sg[-1].items + [x])]
        else:
            self.sg = sg + [Seg([x])]

    def extend(self, o):
        so = segs_of(o)
        if self.sg is None and all(s.items is not None for s in so):
            for s in so:
                list.extend(self, s.items)
            return
        self._set(self._segs() + so)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (list, S.SymList)):
            if isinstance(o, tuple):
                prog_raise(TypeError('can only concatenate list (not "tuple") to list'))
            return NotImplemented
        r = PList()
        r._set(self._segs() + segs_of(o))
        return r

    def __radd__(self, o):
        if not isinstance(o, (list, S.SymList)):
            return NotImplemented
        r = PList()
        r._set(segs_of(o) + self._segs())
        return r

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        if self.sg is None:
            if isinstance(k, SymInt):
                return self.symlist_item(k)
            return list.__getitem__(self, k)
        return self.symlist_item(k)

    def symlist_item(self, k):
        c = ctx()
        i = c.norm(to_I(k))
        sg = self._segs()
        n = seg_len(sg)
        ci = i.cval()
        if ci is not None and ci < 0:
            # from the end, without arithmetic on the length
            back = -ci
            for q in range(len(sg) - 1, -1, -1):
                s = sg[q]
                if s.items is not None:
                    if back <= len(s.items):
                        return s.items[len(s.items) - back]
                    back -= len(s.items)
                    continue
                if c.decide(cmp("<=", I.const(back), s.n)):
                    return s.get(c.norm(s.n - back))
                sz = c.norm(s.n).cval()
                if sz is None:
                    raise Unsupported("index from the end of a list")
                back -= sz
            prog_raise(IndexError("list index out of range"))
        neg = ci is None and c.decide(cmp("<", i, C0))
        if neg:
            i = c.norm(i + n)
        if not c.decide(band(cmp("<=", C0, i), cmp("<", i, n))):
            prog_raise(IndexError("list index out of range"))
        return segs_get(sg, i)

    def _slice(self, k):
        c = ctx()
        step = k.step
        if self.sg is None and not any(isinstance(x, SymInt) for x in (k.start, k.stop, step)):
            return PList(list.__getitem__(self, k))
        if step not in (None, 1):
            if step == -1 and k.start is None and k.stop is None:
                sg = self._segs()
                r = PList()
                r._set([Seg(list(reversed(s.items))) if s.items is not None else
                        Seg(n=s.n, get=lambda i, s=s: s.get(s.n - 1 - i)) for s in reversed(sg)])
                return r
            raise Unsupported("list slice with a step")
        sg = self._segs()
        n = seg_len(sg)

        def bound(x, default):
            if x is None:
                return default
            x = c.norm(to_I(x))
            if c.decide(cmp("<", x, C0)):
                x = c.norm(x + n)
                if c.decide(cmp("<", x, C0)):
                    x = C0
            if not c.decide(cmp("<=", x, n)):
                x = n
            return x
        a, b = bound(k.start, C0), bound(k.stop, n)
        ln = c.norm(b - a)
        if not c.decide(cmp("<=", C0, ln)):
            ln = C0
        r = PList()
        if c.norm(ln).cval() == 0:
            return r
        sg = join_loop(sg)
        out = []
        off = C0
        done = False
        for s in sg:
            # part of s between a and b
            end = c.norm(off + s.n)
            if done or c.decide(cmp("<=", end, a)):
                off = end
                continue
            lo = c.norm(a - off) if not c.decide(cmp("<=", a, off)) else C0
            if c.decide(cmp("<=", b, end)):
                hi, done = c.norm(b - off), True
            else:
                hi = s.n
            if s.items is not None and lo.cval() is not None and hi.cval() is not None:
                out.append(Seg(s.items[lo.cval():hi.cval()]))
            elif lo.cval() == 0 and hi == s.n:
                out.append(s)
            elif c.decide(cmp("<", lo, hi)):
                out.append(Seg(n=c.norm(hi - lo), get=lambda i, s=s, lo=lo: s.get(c.norm(i + lo))))
            off = end
        r._set(out)
        return r

    def __setitem__(self, k, v):
        if self.sg is not None or isinstance(k, SymInt):
            raise Unsupported("assignment to an element of a list of symbolic length")
        list.__setitem__(self, k, v)

    def __iter__(self):
        if self.sg is None:
            return list.__iter__(self)
        n = self._len()
        if not isinstance(n, int):
            raise Unsupported("iteration over a list of symbolic length")
        sg = self._segs()
        return iter([segs_get(sg, I.const(q)) for q in range(n)])

    def __len__(self):
        if self.sg is None:
            return list.__len__(self)
        n = self._len()
        if not isinstance(n, int):
            raise Unsupported("len() of a list of symbolic length through a builtin")
        return n

    def __bool__(self):
        if self.sg is None:
            return list.__len__(self) > 0
        return ctx().decide(cmp("<=", C1, seg_len(self.sg)))

    def __mul__(self, n):
        if self.sg is None and isinstance(n, int):
            return PList(list.__mul__(self, n))
        if self.sg is None and isinstance(n, SymInt):
            return S.repeat_list(self, n)
        return NotImplemented

    __rmul__ = __mul__

    def copy(self):
        r = PList()
        r._set(self._segs())
        return r

    def __copy__(self):
        return self.copy()

    def __eq__(self, o):
        if self.sg is None and not (isinstance(o, PList) and o.sg is not None):
            return list.__eq__(self, o)
        if self is o:
            return True
        raise Unsupported("comparison of lists of symbolic length")

    def __ne__(self, o):
        return not self == o

    def __reduce__(self):
        return (list, (list(self),))


for _n in ("pop", "insert", "remove", "reverse", "sort", "index", "count", "clear", "__contains__", "__delitem__",
           "__imul__", "__lt__", "__le__", "__gt__", "__ge__", "__reversed__"):
    setattr(PList, _n, _sym_unsupported(_n))


def slice_of(sl, k):
    p = PList()
    p._set(segs_of(sl))
    return p._slice(k)


def mklist(x):
    return PList(x)


def join_loop(sg):
    """in the generic iteration: what earlier iterations appended followed by exactly what this one appended are
    the iterations up to this one"""
    out = []
    for s in sg:
        if out and out[-1].loop is not None and s.items is not None and s.loop is None:
            g = out[-1].loop
            if g.can_join(s):
                out[-1] = g.seg(g.k1 + 1)
                continue
        out.append(s)
    return out


# ------------------------------------------------------------------ copies of values at another position

def subst_value(v, m, memo=None):
    """the value with the generic position replaced"""
    memo = {} if memo is None else memo
    if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.ModuleType, types.BuiltinFunctionType, Static)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]

    def keep(r):
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, SymInt):
        i = T.subst(v.i, m)
        return keep(v if i is v.i else mkint(i))
    if isinstance(v, SymReal):
        return keep(SymReal(T.subst(v.r, m), np=v.np))
    if isinstance(v, SymBool):
        from .ctx import mkbool
        return keep(mkbool(T.subst(v.b, m)))
    if isinstance(v, S.SymArray):
        g = v.getter()
        return keep(S.SymArray(tuple(T.subst(s, m) for s in v._shape), lambda i: _inst(g, v.ndim, i, m), v.kind))
    if isinstance(v, PList):
        if v.sg is None:
            r = keep(PList())
            for x in list.__iter__(v):
                list.append(r, subst_value(x, m, memo))
            return r
        r = keep(PList())
        r._set([Seg([subst_value(x, m, memo) for x in s.items]) if s.items is not None else
                Seg(n=ctx().norm(T.subst(s.n, m)), get=lambda i, s=s: _inst_seg(s, i, m)) for s in v.sg])
        return r
    if isinstance(v, S.SymList):
        return keep(S.SymList(T.subst(v.n, m), lambda i: _inst_fn(v.fn, v.n, i, m)))
    if isinstance(v, (list, tuple)):
        r = type(v)(subst_value(x, m, memo) for x in v)
        return keep(r)
    if isinstance(v, dict):
        return keep({k: subst_value(x, m, memo) for k, x in v.items()})
    if hasattr(v, "__dict__") and (type(v).__module__ or "").startswith("mud"):
        r = keep(copy.copy(v))
        r.__dict__ = {k: subst_value(x, m, memo) for k, x in vars(v).items()}
        return r
    raise Unsupported("copy of %s from another iteration" % type(v).__name__)


def _inst(g, nd, idx, m):
    """element idx of a generic array at another position: generic index first, so that the positions do not mix"""
    vs = [T.fresh("sv") for _ in range(nd)]
    r = g(tuple(I.var(v) for v in vs)) if _clash(idx, m) else None
    if r is None:
        return T.subst(g(tuple(idx)), m)
    mm = dict(m)
    mm.update(zip(vs, idx))
    return T.subst(r, mm)


def _clash(idx, m):
    return any(not m.keys().isdisjoint(T.fv(i)) for i in idx)


def _inst_seg(s, i, m):
    return _inst_fn(s.get, s.n, i, m)


def _inst_fn(fn, n, i, m):
    if _clash((i,), m):
        v = T.fresh("sv")
        T.VAREXT[v] = n
        mm = dict(m)
        mm[v] = i
        return subst_value(fn(I.var(v)), mm)
    return subst_value(fn(I.of(i)), m)


# ------------------------------------------------------------------ the heap

def heap(roots):
    """mutable objects reachable from the roots, with their content"""
    out = {}
    stack = list(roots)
    seen = set()
    while stack:
        v = stack.pop()
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.ModuleType, types.FunctionType, Static)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, S.SymArray):
            b = v.buf
            out[id(b)] = (b, ("buf", b.fn))
            out[id(v)] = (v, ("arr", id(b), v._shape, v.imap))
        elif isinstance(v, PList):
            if v.sg is None:
                items = list(list.__iter__(v))
                out[id(v)] = (v, ("list", items))
                stack.extend(items)
            else:
                out[id(v)] = (v, ("segs", list(v.sg)))
                for s in v.sg:
                    if s.items is not None:
                        stack.extend(s.items)
        elif isinstance(v, list):
            items = list(v)
            out[id(v)] = (v, ("list", items))
            stack.extend(items)
        elif isinstance(v, (tuple, set, frozenset)):
            stack.extend(v)
        elif isinstance(v, dict):
            out[id(v)] = (v, ("dict", dict(v)))
            stack.extend(v.values())
        elif hasattr(v, "__dict__") and (type(v).__module__ or "").startswith("mud"):
            out[id(v)] = (v, ("obj", dict(vars(v))))
            stack.extend(vars(v).values())
        elif isinstance(v, types.MethodType):
            stack.append(v.__self__)
    return out


def content(v):
    """current content in the form recorded by heap()"""
    if isinstance(v, S.Buf):
        return ("buf", v.fn)
    if isinstance(v, S.SymArray):
        return ("arr", id(v.buf), v._shape, v.imap)
    if isinstance(v, PList):
        return ("list", list(list.__iter__(v))) if v.sg is None else ("segs", list(v.sg))
    if isinstance(v, list):
        return ("list", list(v))
    if isinstance(v, dict):
        return ("dict", dict(v))
    return ("obj", dict(vars(v)))


def same_content(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "buf":
        return a[1] is b[1]
    if a[0] == "arr":
        return a[1] == b[1] and a[2] == b[2] and a[3] is b[3]
    if a[0] in ("list", "segs"):
        return len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
    return a[1].keys() == b[1].keys() and all(a[1][k] is b[1][k] for k in a[1])


# ------------------------------------------------------------------ cells

class Grow:
    """a list that every iteration appends a block to"""

    def __init__(self, loop, pl, before, after):
        self.loop, self.pl = loop, pl
        self.pre = self._as_segs(before)
        blk = self._suffix(self.pre, self._as_segs(after))
        if blk is None:
            raise Unsupported("a loop changes a list otherwise than by appending")
        self.block0 = blk
        self.b = seg_len(blk)
        self.tree = None
        bl = PList()
        bl._set(blk)
        self.one = self.b.cval() == 1
        if self.one:
            t = Tree(segs_get(blk, C0), loop.outer)
            if t.numeric():
                self.tree = t
        else:
            t = Tree(bl, loop.outer)
            if t.op == "l" and t.numeric():
                self.tree = t
        self.k1 = None
        self.cur = None

    @staticmethod
    def _as_segs(st):
        return ([Seg(st[1])] if st[1] else []) if st[0] == "list" else list(st[1])

    def _suffix(self, pre, sg):
        """what follows pre in sg"""
        pre, sg = list(pre), list(sg)
        while pre:
            if not sg:
                return None
            a, b = pre[0], sg[0]
            if a is b:
                pre.pop(0)
                sg.pop(0)
                continue
            if a.items is None or b.items is None or len(a.items) > len(b.items):
                return None
            if any(x is not y for x, y in zip(a.items, b.items)):
                return None
            pre.pop(0)
            sg[0] = Seg(b.items[len(a.items):])
            if not sg[0].items:
                sg.pop(0)
        return sg

    def seg(self, count):
        """what iterations 0 .. count - 1 appended, seen from the generic iteration"""
        return Seg(n=ctx().norm(self.b * count), get=self.read, loop=self)

    def split(self, pos):
        c = ctx()
        if self.b.cval() == 1:
            return c.norm(I.of(pos)), C0
        return c.norm(T.i_div(pos, self.b)), c.norm(T.i_mod(pos, self.b))

    def make(self, p, j, outer=None):
        return self.tree.make(p, (), outer) if self.one else self.tree.kid.make(p, (j,), outer)

    def read(self, pos):
        if self.tree is None:
            raise Unsupported("an element of an earlier iteration")
        p, j = self.split(pos)
        return self.make(p, j)

    def can_join(self, s):
        return self.tree is not None and same_ext(s.n, self.b)

    def begin(self, k1):
        self.k1 = k1
        self.ls = self.seg(k1)
        self.pl._set(self.pre + [self.ls])

    def end(self):
        cur = self._suffix(self.pre + [self.ls], self.pl._segs())
        if cur is None:
            raise Unsupported("a loop changes a list otherwise than by appending")
        if not same_ext(seg_len(cur), self.b):
            raise Unsupported("iterations append different numbers of elements")
        self.cur = PList()
        self.cur._set(cur)
        self.first = PList()
        self.first._set(self.block0)
        if self.tree is not None:
            if self.one:
                return [(self.tree, segs_get(self.first._segs(), C0), segs_get(self.cur._segs(), C0))]
            return [(self.tree, self.first, self.cur)]
        return []

    def finish(self, n):
        self.pl._set(self.pre + [self.all(n)])

    def all(self, n):
        sg = Seg(n=ctx().norm(self.b * n), get=self.final)
        sg.count, sg.grow = n, self
        return sg

    def final(self, pos):
        c = ctx()
        p, j = self.split(pos)
        if self.tree is not None:
            sq = self.tree.leaves()
            if any(s.alias is None and s.closed is None for s in sq):
                return self.make(p, j, self.loop.now())
            if all(s.alias is None and s.absorbed for s in sq):
                return subst_value(self.cur, {self.loop.k: p - 1}).symlist_item(mkint(j))
        if p.cval() == 0:
            return self.first.symlist_item(mkint(j))
        b = c.norm(cmp("==", p, C0))
        kn = c.known(b)
        if kn is None:
            if generic_in(b):
                if self.tree is not None:
                    return self.make(p, j, self.loop.now())
                raise Unsupported("an object of an undetermined iteration")
            kn = c.decide(b)
        if kn:
            return self.first.symlist_item(mkint(j))
        return subst_value(self.cur, {self.loop.k: p - 1}).symlist_item(mkint(j))


class Cell:
    """a variable, attribute or array that iterations assign"""

    def __init__(self, loop, value, what):
        self.loop, self.what, self.value0 = loop, what, value
        self.tree = Tree(value, loop.outer)

    def placeholder(self, k):
        return self.tree.make(k)


class ArrCell(Cell):
    def __init__(self, loop, buf):
        self.buf = buf
        fn, shape = buf.fn, buf.shape
        v0 = S.SymArray(shape, fn, "f")
        super().__init__(loop, v0, "array")


# ------------------------------------------------------------------ the driver

class Concrete:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def abort(self):
        pass


def without(r, f):
    """r / f where f, a product, is among the factors of r, a product too"""
    if r == f:
        return R.const(1)
    if len(r.t) != 1 or len(f.t) != 1:
        return None
    (c, (bs, fs)), = r.t.values()
    (c2, (bs2, fs2)), = f.t.values()
    if bs or bs2 or not fs2 or c2 != 1:
        return None
    have = {h(n): q for n, q in fs}
    if any(have.get(h(n), 0) < q or q <= 0 for n, q in fs2):
        return None
    return r * T.r_pow(f, T.Fraction(-1))


class Loop:
    sym = True

    def __init__(self, n, elem, names, fresh):
        c = ctx()
        self.n, self.elem, self.names, self.fresh = c.norm(I.of(n)), elem, names, set(fresh)
        self.phase = None
        self.vals = {}
        self.active = False
        self.mustexit = None
        self.outer = tuple(f.k for f in c.loopframes)
        self.done = None

    def now(self):
        """outer positions to use when a result is read: the variables themselves (substituted from outside)"""
        return None

    def __iter__(self):
        c = ctx()
        if not c.decide(cmp("<=", C1, self.n)):
            c.assume(cmp("==", c.norm(self.n), C0))
            return
        self.phase = 0
        yield self.elem(C0)
        m = c.norm(self.n - 1)
        if m.cval() == 0 or not c.decide(cmp("<=", C1, m)):
            self.phase = "short"
            c.assume(cmp("==", c.norm(m), C0))
            return
        self.phase = 1
        self.m = m
        self.k = T.fresh("it")
        T.VAREXT[self.k] = m
        kI = I.var(self.k)
        self.kI, self.k1 = kI, kI + 1
        c.loopframes.append(self)
        self.active = True
        yield self.elem(self.k1)

    def roots(self, loc):
        return [v for k, v in loc.items() if not k.startswith("_pyvc_")] + [list(self.names), ctx().events]

    def begin(self, loc):
        c = ctx()
        self.vals = {}
        if self.phase == 0:
            self.pre_heap = heap(self.roots(loc))
            self.pre_locals = dict(loc)
            return
        # generic iteration: which objects did iteration 0 change?
        self.cells, self.grow, self.arrs, self.attrs = {}, [], [], []
        for _, (o, st) in list(self.pre_heap.items()):
            now = content(o)
            if same_content(st, now):
                continue
            if isinstance(o, PList):
                self.grow.append(Grow(self, o, st, now))
            elif isinstance(o, S.Buf):
                self.arrs.append((o, st[1]))
            elif isinstance(o, S.SymArray):
                raise Unsupported("a loop changes the shape of an array")
            elif st[0] == "obj":
                for a, v in now[1].items():
                    if a not in st[1] or st[1][a] is not v:
                        self.attrs.append((o, a, st[1].get(a)))
                if any(a not in now[1] for a in st[1]):
                    raise Unsupported("a loop deletes attributes")
            else:
                raise Unsupported("a loop changes a %s" % st[0])
        growing = {id(g.pl) for g in self.grow}
        for nm in self.names:
            if nm not in loc:
                continue
            v = loc[nm]
            if nm in self.fresh:
                continue
            if id(v) in growing and self.pre_locals.get(nm) is v:
                continue                    # grows in place
            if isinstance(v, S.SymArray) and self.pre_locals.get(nm) is v:
                continue                    # changed in place
            t = Cell(self, v, nm)
            if t.tree.op == "o" or not t.tree.numeric():
                t.opaque = True
                self.cells[nm] = t
                continue
            t.opaque = False
            self.cells[nm] = t
            self.vals[nm] = t.placeholder(self.kI)
        for g in self.grow:
            g.begin(self.k1)
        self.acells = []
        for o, a, _ in self.attrs:
            v = vars(o)[a]
            if any(v is g.pl for g in self.grow):
                raise Unsupported("an attribute is assigned a growing list")
            t = Cell(self, v, a)
            t.obj = o
            t.opaque = t.tree.op == "o" or not t.tree.numeric()
            if not t.opaque:
                vars(o)[a] = t.placeholder(self.kI)
            self.acells.append(t)
        self.bcells = []
        for buf, fn0 in self.arrs:
            # the kind of the array lives in the array objects; elements are terms
            t = ArrCell(self, buf)
            t.fn0 = fn0
            q = t.tree.seq
            buf.fn = lambda i, q=q, kI=self.kI: q.term(kI, tuple(i))
            self.bcells.append(t)
        loc2 = dict(loc)
        loc2.update(self.vals)
        self.gen_heap = heap(self.roots(loc2))
        self.rng = (c.rng, c.rngpos)

    def has(self, nm):
        if nm in self.vals:
            self.val = self.vals[nm]
            return True
        return False

    def end(self, loc):
        c = ctx()
        self.vals = {}
        if self.phase == 0:
            return
        if self.mustexit is not None:
            c.dropped.append(self.mustexit)
            raise Dropped()
        self.active = False
        if c.loopframes and c.loopframes[-1] is self:
            c.loopframes.pop()
        else:
            raise Unsupported("nested loops out of order")
        if (c.rng, c.rngpos) != self.rng:
            raise Unsupported("random numbers in a loop over a symbolic extent")
        growing = {id(g.pl) for g in self.grow}
        bufs = {id(t.buf) for t in self.bcells}
        objs = {}
        for t in self.acells:
            objs.setdefault(id(t.obj), set()).add(t.what)
        for _, (o, st) in self.gen_heap.items():
            if id(o) in growing or id(o) in bufs:
                continue
            now = content(o)
            if id(o) in objs:
                skip = objs[id(o)]
                st = ("obj", {a: v for a, v in st[1].items() if a not in skip})
                now = ("obj", {a: v for a, v in now[1].items() if a not in skip})
            if not same_content(st, now):
                raise Unsupported("an iteration changes an object the first one does not")
        eqs = []
        for nm, t in self.cells.items():
            if nm not in loc:
                raise Unsupported("a loop deletes a variable")
            t.new = loc[nm]
            if t.opaque:
                if t.new is not t.value0:
                    raise Unsupported(f"the loop carries {nm} (a {type(t.new).__name__}) from one iteration to the next")
                continue
            eqs.append((t.tree, t.value0, t.new))
        for t in self.acells:
            t.new = vars(t.obj)[t.what]
            if t.opaque:
                if t.new is not t.value0:
                    raise Unsupported(f"the loop carries {t.what} from one iteration to the next")
                continue
            eqs.append((t.tree, t.value0, t.new))
        for t in self.bcells:
            t.new = S.SymArray(t.buf.shape, t.buf.fn, "f")
            eqs.append((t.tree, t.value0, t.new))
        for g in self.grow:
            eqs += g.end()
        self.lastloc = dict(loc)
        self.define(eqs)
        self.done = True

    def define(self, eqs):
        c = ctx()
        seqs = []
        for tree, v0, v1 in eqs:
            b, s = tree.terms(v0), tree.terms(v1)
            if b is None or s is None:
                raise Unsupported("a variable changes its shape from one iteration to the next")
            for (q, tb), (q2, ts) in zip(b, s):
                q.k = self.k
                q.pend = (c.norm(to_R(tb)), c.norm(to_R(ts)))
                seqs.append(q)
        mine = {q.name for q in seqs}
        todo = list(seqs)
        while True:
            todo = self.close(todo, mine)
            if not self.unify(todo, seqs) and not self.derive(todo):
                break
            todo = [q for q in todo if q.alias is None and q.closed is None]
            mine = {q.name for q in todo}
        for q in todo:
            q.base, q.step = q.pend
        c.seqmemo = {}

    def close(self, todo, mine):
        """closed forms: definitions that do not mention the loop's own sequences, and accumulations"""
        c = ctx()
        prog = True
        while prog:
            prog = False
            for q in list(todo):
                b, s = c.norm(q.pend[0]), c.norm(q.pend[1])
                q.pend = (b, s)
                open_ = {x.name for x in todo}
                idx = tuple(I.var(v) for v in q.idx)
                if not (mentions(s, open_)):
                    q.base, q.closed = b, s
                    s0 = T.subst(s, {self.k: I.const(-1)})
                    q.absorbed = c.norm(s0) == b
                elif self.stored(q, b, s, idx, open_):
                    pass
                elif self.scaled(q, b, s, idx, open_):
                    pass
                elif q.kind == "f":
                    d = s - q.term(self.kI, idx)
                    if mentions(d, open_):
                        continue
                    # X[k + 1] = X[k] + d(k):  X[k + 1] = (b - d(-1)) + SUM_{q < k + 2} d(q - 1)
                    v = T.fresh("ac")
                    ext = self.kI + 2
                    d0 = T.subst(d, {self.k: I.const(-1)})
                    q.base = b
                    q.closed = (b - d0) + T.r_sum(v, ext, T.subst(d, {self.k: I.var(v) - 1}))
                    q.absorbed = True
                elif q.kind == "i":
                    d = s - q.term(self.kI, idx)
                    di = d.as_I()
                    if di is None or mentions(d, open_) or self.k in T.fv(di):
                        continue
                    q.base = b
                    q.closed = b + R.of(di * (self.kI + 1))
                    q.absorbed = True
                else:
                    continue
                todo.remove(q)
                c.seqmemo = {}
                prog = True
        return todo

    def derive(self, todo):
        """a sequence no step needs, not even its own, is defined by the others"""
        c = ctx()
        for q in todo:
            if any(mentions(x.pend[1], {q.name}) for x in todo):
                continue
            b, s = c.norm(q.pend[0]), c.norm(q.pend[1])
            q.base, q.closed = b, s
            q.absorbed = False
            c.seqmemo = {}
            return True
        return False

    def scaled(self, q, b, s, idx, open_):
        """X[k + 1] = X[k] * d(k):  X[p] = b * PROD_{q < p} d(q)"""
        if q.kind != "f":
            return False
        (_, (_, fs)), = q.term(self.kI, idx).t.values()
        key = h(fs[0][0])
        d = R.const(0)
        for c, (bs, fs) in s.t.values():
            rest = [(n, e) for n, e in fs if h(n) != key]
            if len(rest) != len(fs) - 1 or any(h(n) == key and e != 1 for n, e in fs):
                return False
            acc = T.Acc()
            acc.add_norm(c, bs, tuple(rest))
            d = d + acc.result()
        if mentions(d, open_) or self.k not in T.fv(d):
            return False
        v = T.fresh("pr")
        q.base = b
        # the factors of the iterations before belong to the product
        t, rest = 0, ctx().norm(b)
        while t < 4:
            less = without(rest, ctx().norm(T.subst(d, {self.k: I.const(-1 - t)})))
            if less is None:
                break
            t, rest = t + 1, less
        q.closed = rest * T.r_red("prod", v, self.kI + 1 + t, T.subst(d, {self.k: I.var(v) - t}))
        q.absorbed = q.whole = True
        return True

    def stored(self, q, b, s, idx, open_):
        """iteration p stores the p-th element (or row) of an array and leaves the others:
        X[k + 1][.. j ..] = v(k) if j == k + 1 else X[k][.. j ..]"""
        me = q.term(self.kI, idx)
        for cond in T.open_conditions(s):
            if cond.a[0] != "==" or not isinstance(cond.a[1], I):
                continue
            for v in q.idx:
                if v not in T.fv(cond.a[1]) or T.solve_for(cond.a[1], v) != self.k1:
                    continue
                if T.subst(s, T.Resolve({h(cond): False})) != me:
                    continue
                new = T.subst(s, T.Resolve({h(cond): True}))
                # what the element holds before it is stored: as the loop found it
                j = I.var(v)
                old = q.term(self.kI, tuple(self.k1 if x == v else I.var(x) for x in q.idx))
                seen = T.subst(b, {v: self.k1})
                new = T.subst(new, {v: self.k1})
                new = replace_atom(new, old, seen)
                if mentions(new, open_):
                    continue
                at = T.subst(new, {self.k: j - 1})
                q.base = b
                if ctx().norm(T.subst(at, {v: C0})) == ctx().norm(T.subst(b, {v: C0})):
                    q.absorbed = True
                    q.closed = T.ite(cmp("<=", j, self.k1), at, b)
                else:
                    q.absorbed = False
                    q.closed = T.ite(band(cmp("<=", j, self.k1), cmp("<=", C1, j)), at, b)
                return True
        return False

    def unify(self, todo, seqs):
        """two sequences with the same first element and the same step are the same sequence"""
        for a in range(len(todo)):
            for b in range(a + 1, len(todo)):
                x, y = todo[a], todo[b]
                if len(x.idx) != len(y.idx) or x.kind != y.kind or not all(same_ext(T.VAREXT[i], T.VAREXT[j]) for i, j in zip(x.idx, y.idx)):
                    continue
                ren = dict(zip(y.idx, [I.var(i) for i in x.idx]))
                if ctx().norm(T.subst(y.pend[0], ren)) != ctx().norm(x.pend[0]):
                    continue
                # suppose they agree up to k
                y.alias = x
                ctx().seqmemo = {}
                sx, sy = ctx().norm(x.pend[1]), ctx().norm(T.subst(y.pend[1], ren))
                if sx == sy:
                    return True
                y.alias = None
                ctx().seqmemo = {}
        return False

    def finish(self):
        c = ctx()
        self.vals = {}
        if not self.done:
            return
        last = c.norm(self.n - 1)
        at = {self.k: c.norm(self.n - 2)}
        for g in self.grow:
            g.finish(self.n)
        for t in self.bcells:
            q = t.tree.seq
            t.buf.fn = S._memo(lambda i, q=q, last=last: q.term(last, tuple(i)))
        for t in self.acells:
            if not t.opaque:
                vars(t.obj)[t.what] = self.result(t, last, at)
        for nm in self.names:
            if nm in self.cells:
                t = self.cells[nm]
                if not t.opaque:
                    self.vals[nm] = self.result(t, last, at)
                continue
            if nm in self.lastloc and nm in self.fresh:
                v = self.lastloc[nm]
                try:
                    self.vals[nm] = subst_value(v, at)
                except Unsupported:
                    self.vals[nm] = Stale(nm)

    def result(self, t, last, at):
        if all(q.alias is None and q.closed is not None and not q.whole for q in t.tree.leaves()):
            return subst_value(t.new, at)
        return t.tree.make(last)

    def abort(self):
        """left by an exception"""
        if self.active:
            self.active = False
            fr = ctx().loopframes
            while fr and fr[-1] is not self:
                fr.pop()
            if fr:
                fr.pop()


def replace_atom(x, old, new):
    """the term with an atom (given as a one-atom term) replaced"""
    if isinstance(x, R) and isinstance(old, R):
        (_, (_, fs)), = old.t.values()
        return T.subst(x, AtomMap(h(fs[0][0]), new))
    return x


class AtomMap(T.SeqMapBase):
    """replaces one sequence atom"""

    def __init__(self, key, new):
        super().__init__()
        self.key, self.new = key, new

    def value(self, name, args):
        return self.new if h(N("el", N("ts", name), *args)) == self.key else None


def mentions(x, names):
    hit = []

    def f(n):
        if n.op == "el" and n.a[0].op == "ts" and n.a[0].a[0] in names:
            hit.append(1)
        elif n.op == "ia" and n.a[0] == "sq" and n.a[1].a[0] in names:
            hit.append(1)
    if not T.has_seq(x):
        return False
    T.walk(x, f)
    return bool(hit)


class Stale:
    """a loop temporary whose last value is not represented"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        raise Unsupported("use of a loop temporary after the loop")

    def _no(self, *a, **k):
        raise Unsupported("use of a loop temporary after the loop")

    __call__ = __getitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __mul__ = __rmul__ = __matmul__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __neg__ = _no
    __hash__ = None


def branch(b):
    """a branch that depends on the generic iteration: see the module text.  -> True / False"""
    c = ctx()
    fr = c.loopframes[-1]
    pos = len(c.trace)
    key = tuple(map(str, c.trace))
    d = c.choose(4)
    k = fr.k
    if d == 0 or d == 1:
        bb = T.bnot(b) if d == 0 else b
        v = T.fresh("q")
        c.assume(T.forall(v, fr.m, T.subst(bb, {k: I.var(v, fr.m)})))
        c.assume(bb)
        return d == 1
    c.consts.add(k)
    c.assume(cmp("<=", C0, I.var(k)))
    c.assume(cmp("<", I.var(k), fr.m))
    c.assume(b if d == 2 else T.bnot(b))
    c.check_feasible()
    fr.mustexit = (key, d)
    return d == 2


from . import ctx as _ctxmod  # noqa: E402
import sys as _sys  # noqa: E402
_ctxmod.LOOPS[0] = _sys.modules[__name__]
