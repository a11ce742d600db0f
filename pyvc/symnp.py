"""The symbolic array library: the assumed contracts of the numpy operations the
code under verification uses.  Every array has a concrete rank and symbolic
extents; elements are terms."""
import inspect
from fractions import Fraction

from . import terms as T
from .terms import I, R, N, h, cmp, band, bnot, bor, TRUE, FALSE, HALF
from .ctx import (ctx, LOOPS, Unsupported, prog_raise, SymInt, SymReal, SymBool, mkint, mkbool,
                  to_R, to_I, to_B, r_div, r_abs, r_power, r_round)

C0, C1 = I.const(0), I.const(1)


class LinAlgError(ValueError):
    pass


# ----------------------------------------------------------------- buffers, arrays

class Buf:
    __slots__ = ("fn", "shape", "writes", "name", "maybe")

    def __init__(self, fn, shape, name=None):
        self.fn = fn
        self.shape = shape
        self.writes = 0
        self.name = name
        self.maybe = False


def _memo(fn):
    cache = {}

    def g(idx):
        k = tuple(h(i) for i in idx)
        if k not in cache:
            cache[k] = fn(idx)
        return cache[k]
    return g


class SymArray:
    _pyvc_array = True
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, shape, fn=None, kind="f", buf=None, imap=None, inv=None, contig=True):
        self._shape = tuple(I.of(s) for s in shape)
        self.kind = kind
        if buf is None:
            buf = Buf(_memo(fn), self._shape)
        self.buf = buf
        self.imap = imap            # view idx -> base idx (None: identity)
        self.inv = inv              # base idx -> (cond, view idx)
        self.contig = contig
        self.flags = _Flags(self)

    # -- element access (snapshot of the current content)
    def getter(self):
        f = self.buf.fn
        if self.imap is None:
            return f
        m = self.imap
        return lambda idx: f(m(idx))

    def at(self, *idx):
        return self.getter()(tuple(I.of(i) for i in idx))

    # -- shape
    @property
    def shape(self):
        return tuple(mkint(s) for s in self._shape)

    @shape.setter
    def shape(self, s):
        n = self.reshape(s)
        self._shape, self.imap, self.inv, self.buf = n._shape, n.imap, n.inv, n.buf

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = C1
        for s in self._shape:
            r = r * s
        return mkint(r)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return None if self.imap is None else self

    @property
    def real(self):
        return self

    def __len__(self):
        if not self._shape:
            prog_raise(TypeError("len() of unsized object"))
        n = mkint(self._shape[0])
        if isinstance(n, int):
            return n
        raise Unsupported("len() with symbolic extent through builtin")

    def _len(self):
        if not self._shape:
            prog_raise(TypeError("len() of unsized object"))
        return mkint(self._shape[0])

    def __repr__(self):
        return f"SymArray{self.shape}"

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        s = self.size
        if isinstance(s, int) and s == 1:
            return bool(self._as_scalar())
        if ctx().decide(cmp("==", to_I(s), C1)):
            return bool(self._as_scalar())
        prog_raise(ValueError("The truth value of an array with more than one element is ambiguous"))

    def _as_scalar(self):
        v = self.at(*[C0] * self.ndim)
        return wrap_scalar(v, self.kind)

    def item(self, *a):
        return self._as_scalar()

    def __float__(self):
        return float(self._as_scalar())

    def __index__(self):
        if self.ndim == 0 or all(s.cval() == 1 for s in self._shape):
            return self._as_scalar().__index__()
        prog_raise(TypeError("only integer scalar arrays can be converted to a scalar index"))

    def __iter__(self):
        if not self._shape:
            prog_raise(TypeError("iteration over a 0-d array"))
        n = ctx().norm(self._shape[0]).cval()
        if n is None:
            raise Unsupported("iteration over a symbolic extent")
        for k in range(n):
            yield self[k]

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_pyvc"):
            raise AttributeError(name)
        if name in NDARRAY_ATTRS:
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    # -- views
    def view_of(self, shape, imap, inv, contig=False):
        """view: imap: new idx -> old view idx ; inv: old view idx -> (cond, new idx)"""
        if self.imap is None:
            im = imap
            iv = inv
        else:
            om, oi = self.imap, self.inv
            im = lambda idx: om(imap(idx))

            def iv(b):
                c, v = oi(b)
                c2, w = inv(v)
                return band(c, c2), w
        return SymArray(shape, kind=self.kind, buf=self.buf, imap=im, inv=iv, contig=contig)

    def copy(self, order=None):
        return SymArray(self._shape, self.getter(), self.kind)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = tuple(axes[0]) if axes[0] is not None else ()
        nd = self.ndim
        if nd < 2:
            return self.view_of(self._shape, lambda i: i, lambda i: (TRUE, i), self.contig)
        ax = tuple(a % nd for a in axes) if axes else tuple(reversed(range(nd)))
        shape = tuple(self._shape[a] for a in ax)
        invp = [ax.index(k) for k in range(nd)]
        return self.view_of(shape,
                            lambda idx: tuple(idx[invp[k]] for k in range(nd)),
                            lambda v: (TRUE, tuple(v[a] for a in ax)))

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order == "F":
            return reshape_arr(self.T, tuple(reversed(shape))).T
        if order not in ("C",):
            raise Unsupported("reshape order")
        return reshape_arr(self, shape)

    def ravel(self, order="C"):
        if order == "F":
            return reshape_arr(self.T, (-1,))
        if order not in ("C",):
            raise Unsupported("ravel order")
        return reshape_arr(self, (-1,))

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def squeeze(self, axis=None):
        keep = []
        for k, s in enumerate(self._shape):
            one = s.cval() == 1 or (s.cval() is None and ctx().decide(cmp("==", s, C1)))
            if axis is not None:
                axs = [axis] if isinstance(axis, int) else list(axis)
                axs = [a % self.ndim for a in axs]
                if k in axs:
                    if not one:
                        prog_raise(ValueError("cannot select an axis to squeeze out which has size not equal to one"))
                    continue
                keep.append(k)
            elif not one:
                keep.append(k)
        return self._keep_axes(keep)

    def _keep_axes(self, keep):
        nd = self.ndim

        def imap(idx):
            full = [C0] * nd
            for j, k in enumerate(keep):
                full[k] = idx[j]
            return tuple(full)
        r = self.view_of(tuple(self._shape[k] for k in keep), imap,
                         lambda v: (TRUE, tuple(v[k] for k in keep)), self.contig)
        return r

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def astype(self, dtype, copy=True, **k):
        return astype(self, dtype)

    def conj(self):
        return self.copy()

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis, **k)

    def cumprod(self, axis=None, **k):
        return np_cumprod(self, axis, **k)

    def nonzero(self):
        return np_nonzero(self)

    conjugate = conj

    def tolist(self):
        n = self._shape
        if any(s.cval() is None for s in n):
            raise Unsupported("tolist of symbolic extent")
        if self.ndim == 0:
            return self._as_scalar()
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def fill(self, v):
        self[...] = v

    # -- reductions (methods)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, keepdims=False):
        return np_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, ddof=0, keepdims=False):
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return np_min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return np_max(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None):
        return np_argmax(self, axis=axis)

    def argmin(self, axis=None):
        return np_argmin(self, axis=axis)

    def any(self, axis=None, keepdims=False):
        return np_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, keepdims=False):
        return np_all(self, axis=axis, keepdims=keepdims)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, decimals=0):
        return np_round(self, decimals)

    def trace(self):
        return np_trace(self)

    def diagonal(self):
        return np_diagonal(self)

    def repeat(self, n, axis=None):
        return np_repeat(self, n, axis=axis)

    def nonzero(self):
        raise Unsupported("nonzero")

    # -- operators
    def __add__(self, o):
        return np_add(self, o)

    def __radd__(self, o):
        return np_add(o, self)

    def __sub__(self, o):
        return np_subtract(self, o)

    def __rsub__(self, o):
        return np_subtract(o, self)

    def __mul__(self, o):
        return np_multiply(self, o)

    def __rmul__(self, o):
        return np_multiply(o, self)

    def __truediv__(self, o):
        return np_divide(self, o)

    def __rtruediv__(self, o):
        return np_divide(o, self)

    def __pow__(self, o):
        return np_power(self, o)

    def __rpow__(self, o):
        return np_power(o, self)

    def __floordiv__(self, o):
        return np_floor_divide(self, o)

    def __mod__(self, o):
        return np_mod(self, o)

    def __matmul__(self, o):
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def __neg__(self):
        return ufunc(lambda a: -to_R(a), self, kind=self.kind)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return np_abs(self)

    def _inplace(self, r):
        self[...] = r
        return self

    def _inplace_check(self, r):
        # numpy refuses to store floats in an integer array with the in-place operators
        if self.kind == "b" and kind_of(r) != "b":
            prog_raise(TypeError("Cannot cast ufunc output to dtype('bool')"))
        if self.kind == "i" and kind_of(r) == "f":
            prog_raise(TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')"))
        rs = r._shape if isinstance(r, SymArray) else ()
        if len(rs) != self.ndim:
            if len(rs) > self.ndim:
                prog_raise(ValueError("non-broadcastable output operand"))
        for a, b in zip(reversed(rs), reversed(self._shape)):
            if not dim_eq(a, b) :
                prog_raise(ValueError("non-broadcastable output operand"))
        return self._inplace(r)

    def __iadd__(self, o):
        return self._inplace_check(np_add(self, o))

    def __isub__(self, o):
        return self._inplace_check(np_subtract(self, o))

    def __imul__(self, o):
        return self._inplace_check(np_multiply(self, o))

    def __itruediv__(self, o):
        return self._inplace_check(np_divide(self, o))

    def __lt__(self, o):
        return np_cmp("<", self, o)

    def __le__(self, o):
        return np_cmp("<=", self, o)

    def __gt__(self, o):
        return np_cmp(">", self, o)

    def __ge__(self, o):
        return np_cmp(">=", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return np_cmp("==", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return np_cmp("!=", self, o)

    def __and__(self, o):
        return np_logical_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return np_logical_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return np_logical_not(self)

    def __contains__(self, v):
        return bool(np_any(np_cmp("==", self, v)))

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)


class _Flags:
    def __init__(self, a):
        self._a = a
        self.writeable = True

    def __getitem__(self, k):
        return getattr(self, k.lower(), True)


class DType:
    def __init__(self, kind):
        self.kind = {"f": "f", "i": "i", "b": "b", "o": "O"}[kind]
        self.k = kind
        self.name = {"f": "float64", "i": "int64", "b": "bool", "o": "object"}[kind]

    def __eq__(self, o):
        return not narrow(o) and dtype_kind(o) == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"dtype('{self.name}')"


class NPType:
    """np.float64, np.int64 ... as types and as converters"""

    def __init__(self, name, kind):
        self.__name__ = name
        self.kind_ = kind

    def __call__(self, x=0):
        if isinstance(x, SymArray):
            return astype(x, self)
        r = to_R(x)
        if narrow(self):
            r = rounded(self.__name__, r)
        if self.kind_ == "i":
            return SymInt(to_I(x), np=True)
        return SymReal(r, np=True)

    def _isinstance(self, x):
        if self.kind_ == "f":
            return isinstance(x, SymReal) and x.np
        if self.kind_ == "i":
            return isinstance(x, SymInt) and x.np
        return isinstance(x, (SymReal, SymInt)) and x.np


NARROW = {"float32", "float16", "single", "half", "f4", "f2", "<f4", "<f2", "f", "e"}


def narrow(d):
    """a floating type with fewer digits than the machine's: conversion rounds, and by how much nobody says"""
    n = d if isinstance(d, str) else getattr(d, "__name__", None)
    return n if n in NARROW else None


def dtype_kind(d):
    if d is None:
        return None
    if narrow(d):
        raise Unsupported("arrays of " + narrow(d))
    if isinstance(d, DType):
        return d.k
    if isinstance(d, NPType):
        return d.kind_
    if isinstance(d, str):
        return {"f": "f", "i": "i", "b": "b", "O": "o", "d": "f", "u": "i"}.get(d[0], None)
    n = getattr(d, "_pyvc_py", d)
    if n is float:
        return "f"
    if n is int:
        return "i"
    if n is bool:
        return "b"
    if n is object:
        return "o"
    raise Unsupported(f"dtype {d!r}")


def astype(a, dtype):
    nr = narrow(dtype)
    if nr:
        g = a.getter()
        nm = "float16" if nr in ("float16", "half", "f2", "<f2", "e") else "float32"
        return SymArray(a._shape, lambda i: rounded(nm, to_R(g(i))), "f")
    k = dtype_kind(dtype)
    g = a.getter()
    if k == a.kind or k is None:
        return a.copy()
    if k == "f":
        return SymArray(a._shape, lambda i: to_R(g(i)), "f")
    if k == "i":
        if a.kind == "b":
            return SymArray(a._shape, lambda i: to_R(g(i)), "i")
        return SymArray(a._shape, lambda i: r_trunc(g(i)), "i")
    if k == "b":
        return SymArray(a._shape, lambda i: cmp("!=", to_R(g(i)), R.const(0)), "b")
    raise Unsupported("astype")


def rounded(nm, r):
    c = r.cval()
    if c is not None and c == int(c) and abs(c) <= 2048:
        return r
    return R.atom(N("ap", nm, r))


def r_trunc(r):
    r = R.of(r)
    c = r.cval()
    if c is not None:
        return R.const(int(c))
    if r.as_I() is not None:
        return r
    return R.atom(N("ap", "trunc", r))


def wrap_scalar(v, kind):
    if kind == "b":
        b = to_B(v)
        return mkbool(b)
    r = to_R(v)
    if kind == "i":
        i = r.as_I()
        if i is not None:
            c = ctx().norm(i).cval()
            if c is not None:
                return NPInt(c)
            return SymInt(i, np=True)
    return SymReal(r, np=True)


class NPInt(int):
    """a concrete numpy integer"""
    np = True

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(from_scalar(self), name)


def from_scalar(x):
    k = "i" if isinstance(x, (int, SymInt)) and not isinstance(x, bool) else "b" if isinstance(x, (bool, SymBool)) else "f"
    v = to_B(x) if k == "b" else to_R(x)
    return SymArray((), lambda idx: v, k)


def is_scalar(x):
    return isinstance(x, (bool, int, float, SymInt, SymReal, SymBool, Fraction))


def kind_of(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, (bool, SymBool)):
        return "b"
    if isinstance(x, (int, SymInt)):
        return "i"
    return "f"


def finish(a):
    """0-d results become numpy scalars"""
    if a.ndim == 0:
        return a._as_scalar()
    return a


class SymList:
    """a python list of symbolic length, element k given by fn(k)"""
    _pyvc_list = True

    def __init__(self, n, fn):
        self.n = I.of(n)
        self.fn = fn

    def __getitem__(self, k):
        if isinstance(k, slice):
            return LOOPS[0].slice_of(self, k)
        i = to_I(k)
        neg = ctx().decide(cmp("<", i, C0)) if i.cval() is None else i.cval() < 0
        if neg:
            i = i + self.n
        if not ctx().decide(band(cmp("<=", C0, i), cmp("<", i, self.n))):
            prog_raise(IndexError("list index out of range"))
        return self.fn(i)

    def __iter__(self):
        c = ctx().norm(self.n).cval()
        if c is None:
            raise Unsupported("iteration over a list of symbolic length")
        for k in range(c):
            yield self.fn(I.const(k))

    def __mul__(self, k):
        raise Unsupported("symbolic list *")


def symplist(x):
    return getattr(x, "sg", None) is not None and hasattr(x, "_pyvc_plist")


def pieces(x):
    """a list of symbolic length as concrete lists and symbolic lists"""
    return [list(s.items) if s.items is not None else SymList(s.n, s.get) for s in x._segs()]


def repeat_list(o, n):
    if len(o) == 1:
        x = o[0]
        return SymList(n.i if isinstance(n, SymInt) else n, lambda k: x)
    raise Unsupported("repeat of a longer list by a symbolic count")


def asarray(x, dtype=None):
    if isinstance(x, SymArray):
        return x if dtype is None or not narrow(dtype) and dtype_kind(dtype) == x.kind else astype(x, dtype)
    return array(x, dtype)


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    r = _array(x)
    if dtype is not None:
        r = astype(r, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _array(x):
    if isinstance(x, SymArray):
        return x.copy()
    if x is None:
        return SymArray((), lambda i: R.atom(N("c", "None")), "o")
    if is_scalar(x):
        return from_scalar(x)
    if isinstance(x, SymList):
        return stack_symlist(x)
    if symplist(x):
        ps = pieces(x)
        if len(ps) == 1:
            return _array(ps[0])
        ps = [_array(q) for q in ps]
        return np_concatenate(ps, 0)
    if isinstance(x, range):
        x = list(x)
    if hasattr(x, "_pyvc_range"):
        return x.as_array()
    if isinstance(x, (list, tuple)):
        if not x:
            return SymArray((C0,), lambda i: R.const(0), "f")
        parts = [_array(y) for y in x]
        nd = parts[0].ndim
        if any(p.ndim != nd for p in parts):
            prog_raise(ValueError("setting an array element with a sequence. inhomogeneous shape"))
        for p in parts[1:]:
            for a, b in zip(p._shape, parts[0]._shape):
                if not dim_eq(a, b):
                    prog_raise(ValueError("setting an array element with a sequence. inhomogeneous shape"))
        return _stack0(parts)
    if isinstance(x, str):
        raise Unsupported("string array")
    if hasattr(x, "_pyvc_toarray"):
        return x._pyvc_toarray()
    raise Unsupported("np.array of %s" % type(x).__name__)


def join_kind(ks):
    ks = set(ks)
    if "o" in ks:
        return "o"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def conv(v, frm, to):
    if frm == "b" and to != "b":
        return to_R(v)
    return v


def select(i, vals):
    """vals[i] for a concrete list of terms"""
    c = i.cval()
    if c is not None:
        if not 0 <= c < len(vals):
            raise Unsupported("index outside of a concrete array")
        return vals[c]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = T.ite(cmp("==", i, I.const(k)), vals[k], r)
    return r


def _stack0(parts):
    n = len(parts)
    k = join_kind(p.kind for p in parts)
    gs = [p.getter() for p in parts]
    kinds = [p.kind for p in parts]

    def fn(idx):
        c = idx[0].cval()
        if c is not None:
            return conv(gs[c](idx[1:]), kinds[c], k)
        return select(idx[0], [conv(g(idx[1:]), kk, k) for g, kk in zip(gs, kinds)])
    return SymArray((I.const(n),) + parts[0]._shape, fn, k)


def stack_symlist(x):
    v = T.fresh("li")
    e0 = x.fn(I.var(v, x.n))
    a0 = _array(e0)
    for s in a0._shape:
        if v in T.fv(s):
            raise Unsupported("ragged symbolic list to array")
    g0 = a0.getter()

    def fn(idx):
        # evaluate generically, then instantiate
        r = g0(idx[1:])
        return T.subst(r, {v: idx[0]})
    return SymArray((x.n,) + a0._shape, fn, a0.kind)


# ----------------------------------------------------------------- dims

def dim_eq(a, b):
    """numpy requires a == b here; decides (and forks if open)"""
    if a == b:
        return True
    c = ctx()
    a, b = c.norm(a), c.norm(b)
    if a == b:
        return True
    if a.cval() is not None and b.cval() is not None:
        return False
    return c.decide(cmp("==", a, b))


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = C1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = ctx().norm(s[j])
            if d.cval() == 1 or d == cur:
                continue
            if cur.cval() == 1:
                cur = d
                continue
            if d.cval() is not None and cur.cval() is not None:
                prog_raise(ValueError(f"operands could not be broadcast together"))
            if ctx().decide(cmp("==", d, cur)):
                cur = ctx().norm(cur)
                continue
            if d.cval() is None and ctx().decide(cmp("==", d, C1)):
                continue
            if cur.cval() is None and ctx().decide(cmp("==", cur, C1)):
                cur = d
                continue
            prog_raise(ValueError("operands could not be broadcast together"))
        out.append(cur)
    return tuple(ctx().norm(s) for s in out)


def adapt(a, shape):
    """getter of a broadcast to shape"""
    g = a.getter()
    nd = len(shape)
    off = nd - a.ndim
    ones = []
    for k, s in enumerate(a._shape):
        s = ctx().norm(s)
        ones.append(s.cval() == 1 and ctx().norm(shape[k + off]).cval() != 1)

    def f(idx):
        return g(tuple(C0 if ones[k] else idx[k + off] for k in range(a.ndim)))
    return f


def broadcast_to(a, shape):
    a = asarray(a)
    shape = tuple(to_I(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    if a.ndim > len(shape):
        prog_raise(ValueError("could not broadcast"))
    for x, y in zip(reversed(a._shape), reversed(shape)):
        if ctx().norm(x).cval() == 1:
            continue
        if not dim_eq(x, y):
            if x.cval() is None and ctx().decide(cmp("==", x, C1)):
                continue
            prog_raise(ValueError("could not broadcast input array"))
    return SymArray(shape, adapt(a, shape), a.kind)


def ufunc(f, *args, kind=None):
    arrs = [asarray(a) if not isinstance(a, SymArray) else a for a in args]
    for a in arrs:
        if a.kind == "o":
            prog_raise(TypeError("unsupported operand type(s): 'NoneType'"))
    shape = bshape([a._shape for a in arrs])
    gs = [adapt(a, shape) for a in arrs]
    if kind is None:
        kind = join_kind(a.kind for a in arrs)
        if kind == "b":
            kind = "i"
    return finish(SymArray(shape, lambda idx: f(*[g(idx) for g in gs]), kind))


def _arith(f, boolean=None):
    def op(a, b, out=None, where=None, **kw):
        if where is not None or kw:
            raise Unsupported("ufunc where=/kwargs")
        if kind_of(a) == "b" and kind_of(b) == "b":
            if boolean is None:
                prog_raise(TypeError("numpy boolean subtract, the `-` operator, is not supported"))
            r = ufunc(lambda x, y: boolean(_tb(x), _tb(y)), a, b, kind="b")
        else:
            r = ufunc(lambda x, y: f(to_R(x), to_R(y)), a, b)
        return _out(r, out)
    return op


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


np_add = _arith(lambda a, b: a + b, lambda a, b: bor(a, b))
np_subtract = _arith(lambda a, b: a - b)
np_multiply = _arith(lambda a, b: a * b, lambda a, b: band(a, b))


def np_divide(a, b, out=None, where=None, **kw):
    if where is not None or kw:
        raise Unsupported("ufunc where=/kwargs")
    return _out(ufunc(lambda x, y: r_div(to_R(x), to_R(y)), a, b, kind="f"), out)


def np_power(a, b):
    k = join_kind([kind_of(a), kind_of(b)])
    return ufunc(lambda x, y: r_power(to_R(x), to_R(y)), a, b, kind=k)


def _need_I(x):
    i = R.of(x).as_I()
    if i is None:
        raise Unsupported("integer division of non-integers")
    return i


def np_floor_divide(a, b):
    return ufunc(lambda x, y: R.of(T.i_div(_need_I(x), _need_I(y))), a, b)


def np_mod(a, b):
    return ufunc(lambda x, y: R.of(T.i_mod(_need_I(x), _need_I(y))), a, b)


def inf_cmp(op, x, neg):
    """x op inf, or x op -inf; only a logarithm of zero is infinite"""
    if not neg:
        return TRUE if op in ("<", "<=", "!=") else FALSE
    if op == "<":
        return FALSE
    if op == ">=":
        return TRUE
    e = _neginf(x)
    return e if op in ("<=", "==") else bnot(e)


INF = T.h(R.atom(N("c", "inf"))), T.h(R.atom(N("c", "-inf")))
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def np_cmp(op, a, b):
    def f(x, y):
        x, y = to_R(x), to_R(y)
        hx, hy = h(x), h(y)
        if hy in INF and hx not in INF:
            return inf_cmp(op, x, hy == INF[1])
        if hx in INF and hy not in INF:
            return inf_cmp(FLIP[op], y, hx == INF[1])
        return cmp(op, x, y)
    return ufunc(f, a, b, kind="b")


def _u1(f, kind="f"):
    def op(a, out=None, **kw):
        if kw:
            raise Unsupported("ufunc kwargs")
        return _out(ufunc(lambda x: f(to_R(x)), a, kind=kind), out)
    return op


def r_sqrt(r):
    return r ** HALF


def r_fun(name):
    def f(r):
        c = r.cval()
        if name == "exp" and c == 0:
            return R.const(1)
        if name == "log":
            if c == 1:
                return R.const(0)
            if len(r.t) == 1:
                (co, (bs, fs)), = r.t.values()
                if co == 1 and not bs and len(fs) == 1 and fs[0][1] == 1:
                    n = fs[0][0]
                    if n.op == "ap" and n.a[0] == "exp":
                        return n.a[1]
                    if n.op == "red" and n.a[0] == "prod" and T.r_pos(r):
                        (v, e), = n.a[1].a[0]
                        return T.r_sum(v, e, f(n.a[1].a[1]))
                elif not bs and T.r_pos(r) and len(fs) > 0:
                    out = f(R.const(co)) if co != 1 else R.const(0)
                    for n, q in fs:
                        out = out + f(R.atom(n)).scale(q)
                    return out
        return R.atom(N("ap", name, r))
    return f


np_sqrt = _u1(r_sqrt)
np_exp = _u1(r_fun("exp"))
np_log = _u1(r_fun("log"))
np_sin = _u1(r_fun("sin"))
np_cos = _u1(r_fun("cos"))
np_tan = _u1(r_fun("tan"))
np_arctan = _u1(r_fun("arctan"))
np_log10 = _u1(r_fun("log10"))
np_log1p = _u1(lambda r: r_fun("log")(r + 1))
np_expm1 = _u1(lambda r: r_fun("exp")(r) - 1)
np_floor = _u1(r_fun("floor"))
np_ceil = _u1(lambda r: -r_fun("floor")(-r))
np_square = _u1(lambda r: r * r)
np_reciprocal = _u1(lambda r: r_div(R.const(1), r))
np_sign = _u1(lambda r: T.ite(cmp("<", R.const(0), r), R.const(1), T.ite(cmp("<", r, R.const(0)), R.const(-1), R.const(0))))
np_negative = _u1(lambda r: -r)


def np_abs(a):
    return ufunc(lambda x: r_abs(to_R(x)), a, kind=kind_of(asarray(a)))


def np_maximum(a, b):
    return ufunc(lambda x, y: T.ite(cmp("<=", to_R(y), to_R(x)), to_R(x), to_R(y)), a, b)


def np_minimum(a, b):
    return ufunc(lambda x, y: T.ite(cmp("<=", to_R(x), to_R(y)), to_R(x), to_R(y)), a, b)


def np_clip(a, lo, hi):
    r = asarray(a)
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    return r


def np_round(a, decimals=0):
    return ufunc(lambda x: r_round(to_R(x), decimals), a, kind=kind_of(asarray(a)))


def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    k = join_kind([kind_of(asarray(a)), kind_of(asarray(b))])
    return ufunc(lambda x, y, z: T.ite(to_B(x) if not isinstance(x, R) else cmp("!=", x, R.const(0)), y, z), c, a, b, kind=k)


def np_logical_and(a, b):
    return ufunc(lambda x, y: band(_tb(x), _tb(y)), a, b, kind="b")


def np_logical_or(a, b):
    return ufunc(lambda x, y: bor(_tb(x), _tb(y)), a, b, kind="b")


def np_logical_not(a):
    return ufunc(lambda x: bnot(_tb(x)), a, kind="b")


def _tb(x):
    if isinstance(x, N) and T.is_bool(x):
        return x
    return cmp("!=", to_R(x), R.const(0))


def np_isfinite(a):
    ctx().note("floating-point values are finite reals")
    return ufunc(lambda x: TRUE, a, kind="b")


def _neginf(r):
    """log terms are -inf exactly where their argument is zero (arguments are >= 0)"""
    r = to_R(r)
    out = FALSE
    for c, (bs, fs) in r.t.values():
        if c > 0 and not bs and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].op == "red" and fs[0][0].a[0] in ("max", "min"):
            kind, lam = fs[0][0].a
            b = _neginf(lam.a[1])
            for v, e in reversed(lam.a[0]):
                b = (T.forall if kind == "max" else T.exists)(v, e, b)
            out = T.bor(out, b)
            continue
        if len(fs) != 1 or fs[0][1] != 1 or fs[0][0].op != "ap" or fs[0][0].a[0] != "log":
            if any("log" in str(n) and not _finite_log(n) for n, _ in fs):
                raise Unsupported("isneginf of a nested logarithm: " + str(r)[:300])
            continue
        x = fs[0][0].a[1]
        if T.r_pos(x):
            continue
        if c <= 0:
            raise Unsupported("isneginf of a negated logarithm")
        b = cmp("==", x, R.const(0))
        for v, e in reversed(bs):
            b = T.exists(v, e, b)
        out = T.bor(out, b)
    return out


def _finite_log(n):
    return n.op == "ap" and n.a[0] == "log" and T.r_pos(n.a[1])


def np_isneginf(a):
    ctx().note("floating-point values are finite reals, except logarithms of zero")
    return ufunc(_neginf, a, kind="b")


def np_isnan(a):
    ctx().note("floating-point values are finite reals")
    return ufunc(lambda x: FALSE, a, kind="b")


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ufunc(lambda x, y: cmp("<=", r_abs(to_R(x) - to_R(y)),
                                  to_R(atol) + to_R(rtol) * r_abs(to_R(y))), a, b, kind="b")


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol))


def np_array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not dim_eq(x, y):
            return False
    return np_all(np_cmp("==", a, b))


# ----------------------------------------------------------------- reductions

def norm_axes(a, axis):
    nd = a.ndim
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        axs = tuple(int(x) for x in axis)
    else:
        axs = (int(axis),)
    out = []
    for x in axs:
        if not -nd <= x < nd:
            prog_raise(AxisError(f"axis {x} is out of bounds for array of dimension {nd}"))
        out.append(x % nd)
    return tuple(sorted(out))


class AxisError(ValueError, IndexError):
    pass


def reduce_arr(a, axis, keepdims, step, kind):
    """step(var, ext, body) reduces one axis"""
    axs = norm_axes(a, axis)
    g = a.getter()
    nd = a.ndim
    keep = [k for k in range(nd) if k not in axs]
    exts = [ctx().norm(a._shape[k]) for k in axs]

    def fn(idx):
        if keepdims:
            base = list(idx)
        else:
            base = [None] * nd
            for j, k in enumerate(keep):
                base[k] = idx[j]
        vs = []
        for k, e in zip(axs, exts):
            v = T.fresh("k")
            base[k] = I.var(v, e)
            vs.append((v, e))
        body = g(tuple(base))
        for v, e in reversed(vs):
            body = step(v, e, body)
        return body
    if keepdims:
        shape = tuple(C1 if k in axs else a._shape[k] for k in range(nd))
    else:
        shape = tuple(a._shape[k] for k in keep)
    return finish(SymArray(shape, fn, kind))


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if kw:
        raise Unsupported("sum kwargs")
    a = asarray(a)
    k = "i" if a.kind in "ib" else "f"
    if dtype is not None:
        k = dtype_kind(dtype)
    if a.kind == "b" and a.ndim == 1 and k == "i" and not keepdims and out is None and axis in (None, 0, -1):
        cnt, _ = mask_select(a)
        return finish(SymArray((), lambda i: R.of(cnt), "i"))
    return _out(reduce_arr(a, axis, keepdims, lambda v, e, b: T.r_sum(v, e, to_R(b)), k), out)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False):
    a = asarray(a)
    return reduce_arr(a, axis, keepdims, lambda v, e, b: T.r_red("prod", v, e, to_R(b)),
                      "i" if a.kind in "ib" else "f")


def _mm(kind):
    def op(a, axis=None, out=None, keepdims=False):
        a = asarray(a)
        return reduce_arr(a, axis, keepdims, lambda v, e, b: T.r_red(kind, v, e, to_R(b)), a.kind)
    return op


np_min = _mm("min")
np_max = _mm("max")


def _axis_count(a, axis):
    r = C1
    for k in norm_axes(a, axis):
        r = r * a._shape[k]
    return r


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = asarray(a)
    s = np_sum(a, axis=axis, keepdims=keepdims)
    return np_divide(s, mkint(_axis_count(a, axis)))


def np_var(a, axis=None, ddof=0, keepdims=False, dtype=None):
    a = asarray(a)
    m = np_mean(a, axis=axis, keepdims=True)
    if not isinstance(m, SymArray):
        d = np_subtract(a, m)
    else:
        d = np_subtract(a, m)
    n = _axis_count(a, axis)
    return np_divide(np_sum(np_multiply(d, d), axis=axis, keepdims=keepdims), mkint(n - I.of(ddof)))


def np_std(a, axis=None, ddof=0, keepdims=False, dtype=None):
    return np_sqrt(np_var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarray(a)
    if returned:
        raise Unsupported("average returned")
    if weights is None:
        return np_mean(a, axis=axis, keepdims=keepdims)
    w = asarray(weights)
    if a.ndim != w.ndim or not all(dim_eq(x, y) for x, y in zip(a._shape, w._shape)):
        if axis is None:
            prog_raise(TypeError("Axis must be specified when shapes of a and weights differ."))
        if w.ndim != 1:
            prog_raise(TypeError("1D weights expected when shapes of a and weights differ."))
        if isinstance(axis, tuple):
            raise Unsupported("average over several axes")
        ax = axis % a.ndim
        if not dim_eq(w._shape[0], a._shape[ax]):
            prog_raise(ValueError("Length of weights not compatible with specified axis."))
        w = broadcast_to(w[tuple(slice(None) if q == ax else None for q in range(a.ndim))], a.shape)
    scl = np_sum(w, axis=axis, keepdims=keepdims)
    if not isinstance(scl, SymArray):
        if isinstance(scl, (int, float)) and scl == 0:
            prog_raise(ZeroDivisionError("Weights sum to zero, can't be normalized"))
        if not isinstance(scl, (int, float)) and ctx().known(cmp("!=", to_R(scl), R.const(0))) is not True:
            ctx().note("weights of an average do not sum to zero")
    return np_divide(np_sum(np_multiply(a, w), axis=axis, keepdims=keepdims), scl)


def unroot(r):
    """x for a term sqrt(x), whose order is that of x"""
    if len(r.t) == 1:
        (c, (bs, fs)), = r.t.values()
        if c > 0 and not bs and len(fs) == 1:
            n, q = fs[0]
            if q == Fraction(1, 2):
                return n.a[0] if n.op == "par" else R.atom(n)
    return None


def arg_term(kd, v, e, body):
    """the first position of the largest or smallest entry;
    invariant under adding index-free terms, positive factors and square roots"""
    while True:
        dep = R({k: cm for k, cm in body.t.items() if v in T.mono_fv(cm[1])})
        if not dep.t:
            return C0                      # all tied: the first one
        fac, rest = content(dep, {v})
        if fac is not None and T.r_pos(fac):
            dep = rest
        elif fac is not None and T.r_pos(-fac):
            dep, kd = rest, ("argmin" if kd == "argmax" else "argmax")
        elif dep.t and all(c < 0 for c, _ in dep.t.values()):
            dep, kd = -dep, ("argmin" if kd == "argmax" else "argmax")
        body = unroot(dep)
        if body is None:
            return I.atom(N("ia", kd, T.lam([(v, e)], dep)))


def extremal(lam):
    """(kind, entries) where a condition on positions says: the entry equals the largest (smallest) of all"""
    (v, e), = lam.a[0]
    c = lam.a[1]
    if c.op == "cmp" and c.a[0] in ("==", "<="):
        d = R.of(c.a[1])
        for c0, (bs, fs) in d.t.values():
            if bs or len(fs) != 1 or fs[0][1] != 1 or fs[0][0].op != "red" or fs[0][0].a[0] not in ("max", "min"):
                continue
            m = fs[0][0]
            (w, e2), *more = m.a[1].a[0]
            if more or e2 != e or v in T.fv(m):
                continue
            f = (d - R.const(c0) * R.atom(m)) * R.const(-1 / c0)
            if h(T.lam([(v, e)], f)) != h(m.a[1]):
                continue
            # c0 * (m - f) == 0, or <= 0 where m - f >= 0 (largest) or m - f <= 0 (smallest)
            if c.a[0] == "==" or (c0 > 0) == (m.a[0] == "max"):
                return "arg" + m.a[0], f
    return None


def _arg(kind):
    def op(a, axis=None, **kw):
        if kw:
            raise Unsupported("arg kwargs")
        a = asarray(a)
        if axis is None:
            if a.ndim != 1:
                a = a.ravel()
            axis = 0
        if a.ndim == 0:
            return 0
        (ax,) = norm_axes(a, axis)
        g = a.getter()
        e = ctx().norm(a._shape[ax])
        if e.cval() == 0:
            prog_raise(ValueError("attempt to get arg of an empty sequence"))

        def fn(idx):
            base = list(idx)
            v = T.fresh("k")
            base.insert(ax, I.var(v, e))
            body = to_R(g(tuple(base)))
            if e.cval() == 1:
                return R.const(0)
            return R.of(arg_term(kind, v, e, ctx().norm(body)))
        shape = a._shape[:ax] + a._shape[ax + 1:]
        return finish(SymArray(shape, fn, "i"))
    return op


np_argmax = _arg("argmax")
np_argmin = _arg("argmin")


def np_any(a, axis=None, keepdims=False, out=None):
    a = asarray(a)
    return reduce_arr(a, axis, keepdims, lambda v, e, b: T.exists(v, e, _tb(b)), "b")


def np_all(a, axis=None, keepdims=False, out=None):
    a = asarray(a)
    return reduce_arr(a, axis, keepdims, lambda v, e, b: T.forall(v, e, _tb(b)), "b")


def np_count_nonzero(a, axis=None):
    a = asarray(a)
    return np_sum(SymArray(a._shape, lambda i, g=a.getter(): _tb(g(i)), "b"), axis=axis)


def _cum(step):
    def op(a, axis=None, dtype=None, out=None):
        a = asarray(a)
        if dtype is not None or out is not None:
            raise Unsupported("cumulative options")
        if axis is None:
            a, axis = a.ravel(), 0
        ax = norm_axes(a, axis)[0]
        g = a.getter()

        def fn(idx):
            v = T.fresh("k")
            e = ctx().norm(idx[ax] + 1)
            base = list(idx)
            base[ax] = I.var(v, e)
            return step(v, e, to_R(g(tuple(base))))
        return finish(SymArray(a._shape, fn, "i" if a.kind in "ib" else "f"))
    return op


np_cumsum = _cum(lambda v, e, b: T.r_sum(v, e, b))
np_cumprod = _cum(lambda v, e, b: T.r_red("prod", v, e, b))


def np_nonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of several dimensions")
    cnt, at = mask_select(a if a.kind == "b" else np_cmp("!=", a, 0))
    return (SymArray((cnt,), lambda i: R.of(at(i[0])), "i"),)


def np_flatnonzero(a):
    return np_nonzero(asarray(a).ravel())[0]


def np_append(a, v, axis=None):
    if axis is None:
        return np_concatenate([asarray(a).ravel(), asarray(v).ravel()])
    return np_concatenate([asarray(a), asarray(v)], axis)


def np_delete(a, i, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not isinstance(i, (int, SymInt)) or isinstance(i, bool):
        raise Unsupported("delete of several")
    ax = norm_axes(a, axis)[0]
    k = norm_index(to_I(i), a._shape[ax])
    lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    lo[ax], hi[ax] = slice(None, mkint(k)), slice(mkint(k + 1), None)
    return np_concatenate([a[tuple(lo)], a[tuple(hi)]], ax)


def np_insert(a, i, v, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not isinstance(i, (int, SymInt)) or isinstance(i, bool) or a.ndim > 2 or (a.ndim == 1 and not is_scalar(v)):
        raise Unsupported("insert")
    ax = norm_axes(a, axis)[0]
    n = a._shape[ax]
    k = to_I(i)
    if not ctx().decide(band(cmp("<=", C0 - n, k), cmp("<=", k, n))):
        prog_raise(IndexError("index is out of bounds"))
    if ctx().decide(cmp("<", k, C0)):
        k = k + n
    lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    lo[ax], hi[ax] = slice(None, mkint(k)), slice(mkint(k), None)
    one = list(mkint(s) for s in a._shape)
    one[ax] = 1
    v = asarray(v)
    if a.ndim == 2 and v.ndim == 1 and ax == 1:
        v = v.reshape(-1, 1)
    return np_concatenate([a[tuple(lo)], astype(np_full(tuple(one), v), a.kind), a[tuple(hi)]], ax)


def np_roll(a, shift, axis=None):
    a = asarray(a)
    if not isinstance(shift, (int, SymInt)) or (axis is None and a.ndim != 1):
        raise Unsupported("roll")
    ax = 0 if axis is None else norm_axes(a, axis)[0]
    g, n, k = a.getter(), a._shape[ax], to_I(shift)
    return SymArray(a._shape, lambda idx: g(tuple(T.i_mod(i - k, n) if j == ax else i for j, i in enumerate(idx))), a.kind)


def np_fliplr(a):
    return np_flip(a, 1)


def np_flipud(a):
    return np_flip(a, 0)


def np_tril(a, k=0):
    return _tri(a, lambda i, j: cmp("<=", j - i, to_I(k)))


def np_triu(a, k=0):
    return _tri(a, lambda i, j: cmp("<=", to_I(k), j - i))


def _tri(a, keep):
    a = asarray(a)
    if a.ndim != 2:
        raise Unsupported("triangle")
    g = a.getter()
    return SymArray(a._shape, lambda idx: T.ite(keep(idx[0], idx[1]), to_R(g(idx)), R.const(0)), "i" if a.kind == "b" else a.kind)


def np_kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron")
    g, f, sb = a.getter(), b.getter(), b._shape
    return SymArray(tuple(ctx().norm(x * y) for x, y in zip(a._shape, sb)),
                    lambda idx: to_R(g(tuple(T.i_div(i, s) for i, s in zip(idx, sb)))) * to_R(f(tuple(T.i_mod(i, s) for i, s in zip(idx, sb)))),
                    join_kind([a.kind, b.kind]))


def np_vdot(a, b):
    return np_dot(asarray(a).ravel(), asarray(b).ravel())


def np_hypot(a, b):
    return np_sqrt(np_add(np_multiply(a, a), np_multiply(b, b)))


def np_isinf(a):
    ctx().note("floating-point values are finite reals")
    return ufunc(lambda x: FALSE, a, kind="b")


def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    ctx().note("floating-point values are finite reals")
    if copy is not True:
        raise Unsupported("nan_to_num in place")
    return np_add(a, 0)


def np_broadcast_to(a, shape):
    a = asarray(a)
    sh = tuple(to_I(x) for x in shape) if isinstance(shape, (tuple, list)) else (to_I(shape),)
    if len(sh) < a.ndim or any(not (dim_eq(s, t) or ctx().decide(cmp("==", s, C1))) for s, t in zip(a._shape[::-1], sh[::-1])):
        prog_raise(ValueError("operands could not be broadcast together with remapped shapes"))
    return np_full(tuple(mkint(s) for s in sh), a, dtype={"f": float, "i": int, "b": bool}[a.kind])


def np_swapaxes(a, i, j):
    return asarray(a).swapaxes(i, j)


def np_fill_diagonal(a, v, wrap=False):
    if a.ndim != 2 or not is_scalar(v):
        raise Unsupported("fill_diagonal")
    a[...] = np_where(np_eye(mkint(a._shape[0]), mkint(a._shape[1]), dtype=bool), v, a.copy())


np_exp2 = _u1(lambda r: r_fun("exp")(r * r_fun("log")(R.const(2))))
np_log2 = _u1(lambda r: r_div(r_fun("log")(r), r_fun("log")(R.const(2))))
np_sinh = _u1(lambda r: (r_fun("exp")(r) - r_fun("exp")(-r)).scale(HALF))
np_cosh = _u1(lambda r: (r_fun("exp")(r) + r_fun("exp")(-r)).scale(HALF))
np_rint = _u1(lambda r: r_round(r, 0))
np_positive = _u1(lambda r: r)
np_degrees = _u1(lambda r: r_div(r.scale(180), R.atom(N("c", "pi"))))
np_radians = _u1(lambda r: r_div(r, R.const(180)) * R.atom(N("c", "pi")))
np_rad2deg, np_deg2rad = np_degrees, np_radians


def np_trunc(a):
    return ufunc(lambda x: T.ite(cmp("<", to_R(x), R.const(0)), -r_fun("floor")(-to_R(x)), r_fun("floor")(to_R(x))), a, kind="f")


# ----------------------------------------------------------------- products

def np_matmul(a, b):
    if is_scalar(a) or is_scalar(b):
        prog_raise(ValueError("matmul: Input operand does not have enough dimensions"))
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        prog_raise(ValueError("matmul: Input operand does not have enough dimensions"))
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    ka = a._shape[-1]
    kb = b._shape[0]
    if not dim_eq(ka, kb):
        prog_raise(ValueError("matmul: Input operand 1 has a mismatch in its core dimension"))
    e = ctx().norm(ka)
    ga, gb = a.getter(), b.getter()
    shape = a._shape[:-1] + b._shape[1:]
    na = a.ndim - 1

    def fn(idx):
        v = T.fresh("k")
        V = I.var(v, e)
        return T.r_sum(v, e, to_R(ga(idx[:na] + (V,))) * to_R(gb((V,) + idx[na:])))
    return finish(SymArray(shape, fn, join_kind([a.kind, b.kind, "i"])))


def np_dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return np_multiply(a, b)
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return np_multiply(a, b)
    return np_matmul(a, b)


def np_outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return np_multiply(a[:, None], b[None, :])


def np_inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_matmul(a, b)
    raise Unsupported("inner")


def np_multi_dot(arrs):
    r = arrs[0]
    for b in arrs[1:]:
        r = np_matmul(r, b)
    return r


def np_einsum(spec, *ops, **kw):
    if kw.get("optimize") is not None:
        kw.pop("optimize")
    if kw or not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    ops = [asarray(o) for o in ops]
    if len(ins) != len(ops):
        prog_raise(ValueError("einsum operands"))
    ext = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            prog_raise(ValueError("einsum subscripts"))
        for c, d in zip(s, o._shape):
            if c in ext:
                if not dim_eq(ext[c], d):
                    prog_raise(ValueError("einsum dims"))
            else:
                ext[c] = ctx().norm(d)
    summed = [c for c in ext if c not in out]
    gs = [o.getter() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))
        vs = []
        for c in summed:
            v = T.fresh("k")
            env[c] = I.var(v, ext[c])
            vs.append((v, ext[c]))
        r = R.const(1)
        for s, g in zip(ins, gs):
            r = r * to_R(g(tuple(env[c] for c in s)))
        for v, e in vs:
            r = T.r_sum(v, e, r)
        return r
    return finish(SymArray(tuple(ext[c] for c in out), fn, join_kind([o.kind for o in ops] + ["i"])))


def np_trace(a):
    a = asarray(a)
    return np_sum(np_diagonal(a))


def np_diagonal(a):
    a = asarray(a)
    g = a.getter()
    if not dim_eq(*a._shape):
        raise Unsupported("diagonal of a non-square matrix")
    return SymArray((a._shape[0],), lambda i: g((i[0], i[0])), a.kind)


def np_diag(a, k=0):
    a = asarray(a)
    if k != 0:
        raise Unsupported("diag k")
    if a.ndim == 2:
        return np_diagonal(a)
    if a.ndim != 1:
        prog_raise(ValueError("Input must be 1- or 2-d."))
    g = a.getter()
    n = a._shape[0]
    return SymArray((n, n), lambda i: to_R(g((i[0],))) * delta(i[0], i[1]), a.kind)


def delta(i, j):
    d = i - j
    c = d.cval()
    if c is not None:
        return R.const(1 if c == 0 else 0)
    return R.atom(N("del", i, j))


# ----------------------------------------------------------------- constructors

def shape_of(s):
    if isinstance(s, SymArray):
        s = [s[k] for k in range(len(s))]
    if isinstance(s, (tuple, list)):
        return tuple(to_I(x) for x in s)
    return (to_I(s),)


def full(shape, v, dtype=None):
    k = dtype_kind(dtype) if dtype is not None else kind_of(v)
    if isinstance(v, SymArray):
        return broadcast_to(v, tuple(mkint(x) for x in shape_of(shape))).copy()
    val = to_B(v) if k == "b" else to_R(v)
    return SymArray(shape_of(shape), lambda i: val, k)


def np_zeros(shape, dtype=None, order=None):
    return full(shape, 0, dtype or DType("f"))


def np_ones(shape, dtype=None, order=None):
    return full(shape, 1, dtype or DType("f"))


def np_empty(shape, dtype=None, order=None):
    u = T.fresh("uninit")
    t = N("ts", u)
    return SymArray(shape_of(shape), lambda i: R.atom(N("el", t, *i)), dtype_kind(dtype) or "f")


def np_full(shape, v, dtype=None, order=None):
    return full(shape, v, dtype)


def np_zeros_like(a, dtype=None):
    a = asarray(a)
    return full(a.shape, 0, dtype or DType(a.kind))


def np_ones_like(a, dtype=None):
    a = asarray(a)
    return full(a.shape, 1, dtype or DType(a.kind))


def np_full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or DType(a.kind))


def np_empty_like(a, dtype=None):
    a = asarray(a)
    return np_empty(a.shape, dtype or DType(a.kind))


def np_eye(n, M=None, k=0, dtype=None):
    if k != 0:
        raise Unsupported("eye k")
    n = to_I(n)
    m = n if M is None else to_I(M)
    return SymArray((n, m), lambda i: delta(i[0], i[1]), "f")


def np_identity(n):
    return np_eye(n)


def np_arange(*a, dtype=None, **kw):
    if kw:
        raise Unsupported("arange kwargs")
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if isinstance(step, (int,)) and step == 1 and all(isinstance(x, (int, SymInt)) for x in (start, stop)):
        s, e = to_I(start), to_I(stop)
        n = e - s
        if not ctx().decide(cmp("<=", C0, n)):
            n = C0
        return SymArray((n,), lambda i: R.of(s + i[0]), "i")
    if isinstance(step, int) and step != 0 and all(isinstance(x, (int, SymInt)) for x in (start, stop)):
        s, e = to_I(start), to_I(stop)
        n = T.i_div(e - s + (step - 1), I.const(step)) if step > 0 else T.i_div(s - e + (-step - 1), I.const(-step))
        if not ctx().decide(cmp("<=", C0, n)):
            n = C0
        return SymArray((n,), lambda i: R.of(s + i[0] * step), "i")
    if all(isinstance(x, (int, float)) for x in (start, stop, step)):
        import math
        n = max(0, math.ceil((stop - start) / step))
        k = "f" if any(isinstance(x, float) for x in (start, stop, step)) else "i"
        return SymArray((I.const(n),), lambda i: to_R(start) + to_R(step) * R.of(i[0]), k)
    raise Unsupported("arange")


def np_linspace(a, b, num=50, endpoint=True, **kw):
    if kw:
        raise Unsupported("linspace kwargs")
    n = to_I(num)
    ra, rb = to_R(_sc(a)), to_R(_sc(b))
    d = n - 1 if endpoint else n
    inner = ctx().in_range(C0, d)

    def fn(i):
        cd = d.cval()
        if cd is not None:
            if cd <= 0:
                return ra
            return ra + (rb - ra) * R.of(i[0]).scale(Fraction(1, cd))
        step = (rb - ra) * R.of(i[0]) * (R.of(d) ** -1)
        return ra + step if inner else T.ite(cmp("<=", d, C0), ra, ra + step)
    return SymArray((n,), fn, "f")


def _sc(x):
    return x._as_scalar() if isinstance(x, SymArray) else x


def np_meshgrid(*xs, indexing="xy", **kw):
    if kw:
        raise Unsupported("meshgrid kwargs")
    arrs = [asarray(x).ravel() for x in xs]
    nd = len(arrs)
    ns = [a._shape[0] for a in arrs]
    pos = list(range(nd))
    if indexing == "xy" and nd >= 2:
        pos[0], pos[1] = 1, 0
    shape = [None] * nd
    for k in range(nd):
        shape[pos[k]] = ns[k]
    out = []
    for k, a in enumerate(arrs):
        g = a.getter()
        out.append(SymArray(tuple(shape), lambda i, g=g, p=pos[k]: g((i[p],)), a.kind))
    return out


# ----------------------------------------------------------------- reshaping

def total(shape):
    r = C1
    for s in shape:
        r = r * s
    return r


def flat_index(idx, shape):
    r = C0
    for i, s in zip(idx, shape):
        r = r * s + i
    return r


def unflat(k, shape):
    out = []
    rem = k
    for j in range(len(shape)):
        t = total(shape[j + 1:])
        if j == len(shape) - 1:
            out.append(rem)
        else:
            q = T.i_div(rem, t)
            out.append(q)
            rem = T.i_mod(rem, t)
    return tuple(out)


def reshape_arr(a, shape):
    shape = list(shape) if isinstance(shape, (tuple, list)) else [shape]
    c = ctx()
    new = []
    minus = None
    for k, s in enumerate(shape):
        if s is None:
            prog_raise(TypeError("'NoneType' object cannot be interpreted as an integer"))
        if isinstance(s, (float, SymReal)) and not isinstance(s, SymInt):
            if isinstance(s, SymReal) and s.r.as_I() is not None:
                s = SymInt(s.r.as_I())
            else:
                prog_raise(TypeError("'float' object cannot be interpreted as an integer"))
        if isinstance(s, int) and s == -1:
            if minus is not None:
                prog_raise(ValueError("can only specify one unknown dimension"))
            minus = k
            new.append(None)
        else:
            new.append(c.norm(to_I(s)))
    tot = c.norm(total([c.norm(s) for s in a._shape]))
    if minus is not None:
        rest = total([s for s in new if s is not None])
        if rest.cval() is None or rest.cval() <= 0:
            if not c.decide(cmp("<", C0, c.norm(rest))):
                prog_raise(ValueError("cannot reshape array of size 0"))
        q = T.i_div(tot, rest)
        if q * rest != tot:
            if not c.decide(cmp("==", q * rest, tot)):
                prog_raise(ValueError("cannot reshape array"))
            q = c.norm(q)
        new[minus] = q
    else:
        if total(new) != tot:
            if not c.decide(cmp("==", c.norm(total(new)), c.norm(tot))):
                prog_raise(ValueError("cannot reshape array"))
            new = [c.norm(s) for s in new]
    new = tuple(new)
    old = tuple(c.norm(s) for s in a._shape)
    if new == old:
        return a.view_of(new, lambda i: i, lambda i: (TRUE, i), a.contig)
    # fast path: only unit axes inserted / removed
    core_new = [k for k, s in enumerate(new) if s.cval() != 1]
    core_old = [k for k, s in enumerate(old) if s.cval() != 1]
    if [new[k] for k in core_new] == [old[k] for k in core_old]:
        def imap(idx):
            full_ = [C0] * len(old)
            for kn, ko in zip(core_new, core_old):
                full_[ko] = idx[kn]
            return tuple(full_)

        def inv(v):
            full_ = [C0] * len(new)
            for kn, ko in zip(core_new, core_old):
                full_[kn] = v[ko]
            return TRUE, tuple(full_)
        return a.view_of(new, imap, inv, a.contig)

    def imap2(idx):
        return unflat(flat_index(idx, new), old)

    def inv2(v):
        return TRUE, unflat(flat_index(v, old), new)
    if not a.contig:
        # a copy, unless a unit axis makes the view contiguous after all: nothing is known once it is written
        g = a.getter()
        r = SymArray(new, lambda idx: g(imap2(idx)), a.kind)
        r.buf.maybe = True
        return r
    return a.view_of(new, imap2, inv2, True)


def np_reshape(a, shape, order="C"):
    return asarray(a).reshape(shape, order=order)


def np_ravel(a, order="C"):
    return asarray(a).ravel(order)


def np_transpose(a, axes=None):
    return asarray(a).transpose(*(axes or ()))


def np_squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


def np_expand_dims(a, axis):
    a = asarray(a)
    nd = a.ndim + 1
    axis = axis % nd
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return a[tuple(key)]


def np_atleast_1d(*xs):
    out = []
    for x in xs:
        a = asarray(x)
        out.append(a.reshape(1) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


def np_atleast_2d(*xs):
    out = []
    for x in xs:
        a = asarray(x)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[None, :]
        out.append(a)
    return out[0] if len(out) == 1 else out


def np_concatenate(arrs, axis=0, **kw):
    if kw:
        raise Unsupported("concatenate kwargs")
    if symplist(arrs):
        ps = pieces(arrs)
        return np_concatenate(ps[0] if len(ps) == 1 else [np_concatenate(q, axis) for q in ps], axis)
    if isinstance(arrs, SymList):
        v = T.fresh("li")
        a0 = asarray(arrs.fn(I.var(v, arrs.n)))
        if a0.ndim == 0:
            prog_raise(ValueError("zero-dimensional arrays cannot be concatenated"))
        if axis is not None and axis % a0.ndim == 0:
            m = ctx().norm(a0._shape[0])
            g0 = a0.getter()
            if m.cval() == 1:
                return SymArray((arrs.n,) + a0._shape[1:],
                                lambda idx: T.subst(g0((C0,) + idx[1:]), {v: idx[0]}), a0.kind)
            if v not in T.fv(m):
                return SymArray((arrs.n * m,) + a0._shape[1:],
                                lambda idx: T.subst(g0((T.i_mod(idx[0], m),) + idx[1:]), {v: T.i_div(idx[0], m)}), a0.kind)
        elif axis is not None and axis % a0.ndim == 1 and ctx().norm(a0._shape[1]).cval() == 1:
            g0 = a0.getter()
            return SymArray((a0._shape[0], arrs.n) + a0._shape[2:],
                            lambda idx: T.subst(g0((idx[0], C0) + idx[2:]), {v: idx[1]}), a0.kind)
        raise Unsupported("concatenate of a symbolic list")
    if isinstance(arrs, SymArray):
        arrs = list(arrs)
    arrs = [asarray(a) for a in arrs]
    if not arrs:
        prog_raise(ValueError("need at least one array to concatenate"))
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if nd == 0:
        prog_raise(ValueError("zero-dimensional arrays cannot be concatenated"))
    if any(a.ndim != nd for a in arrs):
        prog_raise(ValueError("all the input array dimensions must match"))
    if not -nd <= axis < nd:
        prog_raise(AxisError("axis"))
    axis %= nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not dim_eq(a._shape[k], arrs[0]._shape[k]):
                prog_raise(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    kind = join_kind(a.kind for a in arrs)
    gs = [a.getter() for a in arrs]
    offs = [C0]
    for a in arrs:
        offs.append(ctx().norm(offs[-1] + a._shape[axis]))
    unit = all(o == I.const(k) for k, o in enumerate(offs))      # like a stack of single entries

    def fn(idx):
        i = idx[axis]
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            # decide structurally whether the index lies in block k
            inb = band(cmp("<=", offs[k], i), cmp("<", i, offs[k + 1]))
            if inb.op == "false":
                continue
            val = conv(gs[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:]), arrs[k].kind, kind)
            if inb.op == "true":
                return val
            r = val if r is None else T.ite(cmp("==", i, offs[k]) if unit else cmp("<", i, offs[k + 1]), val, r)
        if r is None:
            raise Unsupported("index outside of a concatenation")
        return r
    shape = list(arrs[0]._shape)
    shape[axis] = offs[-1]
    return SymArray(tuple(shape), fn, kind)


def np_vstack(arrs, **kw):
    if symplist(arrs):
        ps = pieces(arrs)
        return np_vstack(ps[0]) if len(ps) == 1 else np_concatenate([np_vstack(q) for q in ps], 0)
    if isinstance(arrs, SymList):
        s = arrs
        return np_concatenate(SymList(s.n, lambda k: np_atleast_2d(s.fn(k))), 0)
    return np_concatenate([np_atleast_2d(a) for a in _seq(arrs)], 0)


def _seq(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, SymArray):
        return list(x)
    prog_raise(TypeError('arrays to stack must be passed as a "sequence" type such as list or tuple.'))


def np_hstack(arrs, **kw):
    if symplist(arrs):
        ps = pieces(arrs)
        if len(ps) == 1:
            return np_hstack(ps[0])
        ps = [np_hstack(q) for q in ps]
        return np_concatenate(ps, 0 if ps[0].ndim == 1 else 1)
    if isinstance(arrs, SymList):
        s = arrs
        v = T.fresh("li")
        a0 = np_atleast_1d(s.fn(I.var(v, s.n)))
        return np_concatenate(SymList(s.n, lambda k: np_atleast_1d(s.fn(k))), 0 if a0.ndim == 1 else 1)
    arrs = [np_atleast_1d(a) for a in _seq(arrs)]
    if arrs and arrs[0].ndim == 1:
        return np_concatenate(arrs, 0)
    return np_concatenate(arrs, 1)


def np_column_stack(arrs):
    if symplist(arrs):
        ps = pieces(arrs)
        return np_column_stack(ps[0]) if len(ps) == 1 else np_concatenate([np_column_stack(q) for q in ps], 1)
    if isinstance(arrs, SymList):
        s = arrs

        def col(k):
            a = asarray(s.fn(k))
            return np_atleast_2d(a).T if a.ndim < 2 else a
        return np_concatenate(SymList(s.n, col), 1)
    out = []
    for a in _seq(arrs):
        a = asarray(a)
        if a.ndim < 2:
            a = np_atleast_2d(a).T
        out.append(a)
    return np_concatenate(out, 1)


def np_stack(arrs, axis=0):
    if symplist(arrs):
        a = _array(arrs)
        return a if axis == 0 else np_moveaxis(a, 0, axis)
    if isinstance(arrs, SymList):
        a = stack_symlist(arrs)
        if axis == 0:
            return a
        return np_moveaxis(a, 0, axis)
    arrs = [asarray(a) for a in _seq(arrs)]
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim or not all(dim_eq(x, y) for x, y in zip(a._shape, arrs[0]._shape)):
            prog_raise(ValueError("all input arrays must have the same shape"))
    a = _stack0(arrs)
    if axis == 0:
        return a
    return np_moveaxis(a, 0, axis)


def np_moveaxis(a, s, d):
    a = asarray(a)
    order = [k for k in range(a.ndim) if k != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


def np_repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    n = to_I(n)
    axis %= a.ndim
    g = a.getter()
    shape = list(a._shape)
    shape[axis] = ctx().norm(shape[axis] * n)

    def fn(idx):
        return g(idx[:axis] + (T.i_div(idx[axis], n),) + idx[axis + 1:])
    return SymArray(tuple(shape), fn, a.kind)


def np_tile(a, reps):
    a = asarray(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [to_I(r) for r in reps]
    while a.ndim < len(reps):
        a = a[None]
    while len(reps) < a.ndim:
        reps.insert(0, C1)
    g = a.getter()
    old = a._shape
    shape = tuple(ctx().norm(s * r) for s, r in zip(old, reps))

    def fn(idx):
        return g(tuple(i if r.cval() == 1 else T.i_mod(i, s) for i, s, r in zip(idx, old, reps)))
    return SymArray(shape, fn, a.kind)


def np_flip(a, axis=None):
    a = asarray(a)
    axs = norm_axes(a, axis)
    g = a.getter()
    return SymArray(a._shape, lambda idx: g(tuple(a._shape[k] - 1 - i if k in axs else i for k, i in enumerate(idx))), a.kind)


# ----------------------------------------------------------------- indexing

def norm_index(i, n, what="index"):
    """python index -> 0 <= i < n or IndexError"""
    c = ctx()
    i = c.norm(i)
    n = c.norm(n)
    if i.cval() is not None:
        if i.cval() < 0:
            i = i + n
    elif c.decide(cmp("<", i, C0)):
        i = i + n
    ok = band(cmp("<=", C0, i), cmp("<", i, n))
    if ok.op == "true":
        return i
    if not c.decide(ok):
        prog_raise(IndexError(f"index is out of bounds"))
    return c.norm(i)


def norm_slice(s, n):
    c = ctx()
    n = c.norm(n)
    step = 1 if s.step is None else s.step
    if isinstance(step, SymInt):
        step = step.__index__()
    if step == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    if step < 1:
        raise Unsupported("negative slice step")

    def clip(v, default):
        if v is None:
            return default
        v = c.norm(to_I(v))
        if v.cval() is not None and v.cval() < 0 or (v.cval() is None and c.decide(cmp("<", v, C0))):
            v = c.norm(v + n)
            if not c.decide(cmp("<=", C0, v)):
                return C0
            return v
        if v == n:
            return n
        if c.decide(cmp("<=", v, n)):
            return c.norm(v)
        return n
    a = clip(s.start, C0)
    b = clip(s.stop, n)
    ln = c.norm(b - a)
    if ln.cval() is not None:
        if ln.cval() < 0:
            ln = C0
    elif not c.decide(cmp("<=", C0, ln)):
        ln = C0
    if step != 1:
        ln = T.i_div(ln + (step - 1), I.const(step))
    return a, ln, step


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # expand ellipsis
    nadv = 0
    for k in key:
        if isinstance(k, SymArray) and k.kind == "b":
            nadv += k.ndim
        elif k is not None and k is not Ellipsis:
            nadv += 1
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        key[p:p + 1] = [slice(None)] * (a.ndim - nadv)
    else:
        key += [slice(None)] * (a.ndim - nadv)
    if nadv > a.ndim:
        prog_raise(IndexError("too many indices for array"))
    # convert lists
    for p, k in enumerate(key):
        if isinstance(k, (list, SymList, range)) or hasattr(k, "_pyvc_range"):
            key[p] = asarray(k)
            if key[p].kind == "f" and key[p].ndim == 1 and key[p]._shape[0].cval() == 0:
                key[p] = astype(key[p], int)
        elif isinstance(k, SymBool) or isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        elif isinstance(k, (float,)) or (isinstance(k, SymReal) and k.r.as_I() is None):
            prog_raise(IndexError("only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices"))
        elif isinstance(k, SymReal):
            key[p] = SymInt(k.r.as_I())
    if len(key) >= 1 and isinstance(key[0], SymArray) and key[0].kind == "b" and key[0].ndim == a.ndim > 1 and len(key) == 1:
        m = key[0]
        if not all(dim_eq(x, y) for x, y in zip(m._shape, a._shape)):
            prog_raise(IndexError("boolean index did not match indexed array"))
        return getitem(a.copy().ravel().copy(), m.copy().ravel())
    adv = [p for p, k in enumerate(key) if isinstance(k, SymArray) and k.ndim > 0]
    for p, k in enumerate(key):
        if isinstance(k, SymArray) and k.ndim == 0:
            key[p] = k._as_scalar()
    if adv:
        return fancy(a, key, adv)
    # basic indexing
    c = ctx()
    plan = []      # per old axis: ('i', idx) | ('s', start, step)
    shape = []
    outmap = []    # per new axis: old axis or None
    ax = 0
    for k in key:
        if k is None:
            shape.append(C1)
            outmap.append(None)
            continue
        n = a._shape[ax]
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            plan.append(("s", st, step))
            shape.append(ln)
            outmap.append(ax)
        else:
            plan.append(("i", norm_index(to_I(k), n)))
        ax += 1

    def imap(idx):
        out = []
        pos = {o: j for j, o in enumerate(outmap) if o is not None}
        for q, p in enumerate(plan):
            if p[0] == "i":
                out.append(p[1])
            else:
                i = idx[pos[q]]
                out.append(p[1] + i * p[2] if p[2] != 1 else p[1] + i)
        return tuple(out)

    def inv(v):
        cond = TRUE
        new = []
        for q, p in enumerate(plan):
            if p[0] == "i":
                cond = band(cond, cmp("==", v[q], p[1]))
        for j, o in enumerate(outmap):
            if o is None:
                new.append(C0)
                continue
            p = plan[o]
            if p[2] == 1:
                w = v[o] - p[1]
            elif p[2] == -1:
                w = p[1] - v[o]
            else:
                w = T.i_div(v[o] - p[1], I.const(p[2]))
                cond = band(cond, cmp("==", T.i_mod(v[o] - p[1], I.const(p[2])), C0))
            if not (p[1].cval() == 0 and shape[j] == a._shape[o]):
                cond = band(cond, cmp("<=", C0, w), cmp("<", w, shape[j]))
            new.append(w)
        return cond, tuple(new)
    full_tail = True
    r = a.view_of(tuple(shape), imap, inv, contig=a.contig and _is_prefix_slice(plan, a._shape, outmap, shape))
    if r.ndim == 0:
        return r._as_scalar()
    return r


def _is_prefix_slice(plan, oldshape, outmap, shape):
    """contiguity: int indices / slice only on leading axis"""
    seen_full = False
    lead = True
    for q, p in enumerate(plan):
        if p[0] == "i":
            if not lead:
                return False
        else:
            j = outmap.index(q)
            whole = p[2] == 1 and p[1].cval() == 0 and shape[j] == oldshape[q]
            if not whole:
                if not lead or p[2] != 1:
                    return False
            lead = False
    return True


def mask_select(k):
    """1-d boolean array -> (count I, fn(j)->index I)"""
    if k.ndim != 1:
        raise Unsupported("multi-dimensional boolean mask")
    n = ctx().norm(k._shape[0])
    g = k.getter()
    if n.cval() is not None and n.cval() <= 16:
        vals = [ctx().norm(g((I.const(j),))) for j in range(n.cval())]
        if all(v.op in ("true", "false") for v in vals):
            idx = [j for j, v in enumerate(vals) if v.op == "true"]
            return I.const(len(idx)), (lambda j: I.of(select(j, [R.const(q) for q in idx]))) if idx else (lambda j: C0)
    v = T.fresh("m")
    body = ctx().norm(g((I.var(v, n),)))
    if ctx().known(T.forall(v, n, body)) is True:
        return n, lambda j: j
    lam = T.lam([(v, n)], body)
    cnt = I.atom(N("ia", "count", lam))
    x = extremal(lam)
    if x is not None:
        first = arg_term(x[0], v, n, x[1])
        return cnt, lambda j: first if j == C0 else T.i_nth(lam, j)
    return cnt, lambda j: T.i_nth(lam, j)


def mask_rank(k, i):
    """how many of the earlier positions a mask selects"""
    n = ctx().norm(k._shape[0])
    v = T.fresh("m")
    body = ctx().norm(k.getter()((I.var(v, n),)))
    if ctx().known(T.forall(v, n, body)) is True:
        return i
    return I.atom(N("ia", "rank", T.lam([(v, n)], body), i))


def _count_facts(n, me, tr):
    lam = n.a[1]
    (v, e), = lam.a[0]
    return [cmp("<=", C0, me), cmp("<=", me, e)] + ([bor(cmp("<=", e, C0), cmp("<", C0, me))] if extremal(lam) else [])


def _nth_facts(n, me, tr):
    lam, j = n.a[1], n.a[2]
    (v, e), = lam.a[0]
    cnt = I.atom(N("ia", "count", lam))
    inr = band(cmp("<=", C0, j), cmp("<", j, cnt))
    return [bor(bnot(inr), band(cmp("<=", C0, me), cmp("<", me, e), T.subst(lam.a[1], {v: me})))]


from . import smt  # noqa: E402
smt.IAFACTS["count"] = _count_facts


def _rank_facts(n, me, tr):
    lam, i = n.a[1], n.a[2]
    (v, e), = lam.a[0]
    cnt = I.atom(N("ia", "count", lam))
    return [cmp("<=", C0, me), cmp("<=", me, cnt),
            bor(bnot(band(cmp("<=", C0, i), cmp("<", i, e), T.subst(lam.a[1], {v: i}))), cmp("<", me, cnt))]


smt.IAFACTS["rank"] = _rank_facts
smt.IAFACTS["nth"] = _nth_facts
smt.IAFACTS["size"] = lambda n, me, tr: [cmp("<=", C1, me)]
smt.IAFACTS["idxarr"] = lambda n, me, tr: [band(cmp("<=", C0, me), cmp("<", me, n.a[2]))]


def int_term(r):
    """an integer-valued real term as an integer term"""
    i = r.as_I()
    if i is None and len(r.t) == 1:
        (c, (bs, fs)), = r.t.values()
        if c == 1 and not bs and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].op == "ite":
            n = fs[0][0]
            return T.ite(n.a[0], int_term(n.a[1]), int_term(n.a[2]))
    if i is None:
        raise Unsupported("non-integer index term")
    return i


def fancy(a, key, adv):
    c = ctx()
    if any(k is None for k in key):
        raise Unsupported("newaxis with fancy indexing")
    ints = [p for p, k in enumerate(key) if isinstance(k, (int, SymInt))]
    sels = {}
    bnd = []
    if len(adv) == 1 and not ints:
        p = adv[0]
        k = key[p]
        if k.kind == "b":
            if k.ndim != 1:
                raise Unsupported("multi-dimensional boolean mask")
            if not dim_eq(k._shape[0], a._shape[p]):
                prog_raise(IndexError("boolean index did not match indexed array"))
            cnt, fsel = mask_select(k)
            ishape = (cnt,)
            isel = lambda idx: fsel(idx[0])
        else:
            if k.kind == "f":
                prog_raise(IndexError("arrays used as indices must be of integer (or boolean) type"))
            g = k.getter()
            n = a._shape[p]
            _check_bounds(k, n)
            ishape = k._shape
            nonneg = _all_nonneg(k)

            def isel(idx):
                i = int_term(to_R(g(idx)))
                if nonneg:
                    return i
                return T.ite(cmp("<", i, C0), i + n, i)
        shape = []
        maps = []
        for q, kk in enumerate(key):
            if q == p:
                maps.append(("a", len(shape)))
                shape += list(ishape)
            else:
                st, ln, step = norm_slice(kk, a._shape[q])
                maps.append(("s", st, step, len(shape)))
                shape.append(ln)
        g0 = a.getter()
        na = len(ishape)

        def fn(idx):
            out = []
            for m in maps:
                if m[0] == "a":
                    out.append(isel(idx[m[1]:m[1] + na]))
                else:
                    out.append(m[1] + idx[m[3]] * m[2])
            return g0(tuple(out))
        return finish(SymArray(tuple(shape), fn, a.kind))
    # several integer index arrays / scalars, broadcast together, adjacent
    pos = sorted(adv + ints)
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("non-adjacent advanced indices")
    idxa = []
    for p in pos:
        k = key[p]
        if isinstance(k, SymArray) and k.kind == "b":
            cnt, fsel = mask_select(k)
            if not dim_eq(k._shape[0], a._shape[p]):
                prog_raise(IndexError("boolean index did not match"))
            idxa.append(SymArray((cnt,), lambda i, f=fsel: R.of(f(i[0])), "i"))
        elif isinstance(k, SymArray):
            _check_bounds(k, a._shape[p])
            n = a._shape[p]
            if not _all_nonneg(k):
                g = k.getter()
                k = SymArray(k._shape, lambda i, g=g, n=n: R.of(T.ite(cmp("<", to_I(g(i)), C0), to_I(g(i)) + n, to_I(g(i)))), "i")
            idxa.append(k)
        else:
            idxa.append(from_scalar(mkint(norm_index(to_I(k), a._shape[p]))))
    ishape = bshape([k._shape for k in idxa])
    igs = [adapt(k, ishape) for k in idxa]
    shape = []
    maps = {}
    for q, kk in enumerate(key):
        if q in pos:
            if q == pos[0]:
                off = len(shape)
                shape += list(ishape)
        else:
            st, ln, step = norm_slice(kk, a._shape[q])
            maps[q] = (st, step, len(shape))
            shape.append(ln)
    g0 = a.getter()
    na = len(ishape)

    def fn2(idx):
        out = []
        ii = idx[off:off + na]
        for q in range(a.ndim):
            if q in maps:
                st, step, o = maps[q]
                out.append(st + idx[o] * step)
            else:
                out.append(to_I(igs[pos.index(q)](ii)))
        return g0(tuple(out))
    return finish(SymArray(tuple(shape), fn2, a.kind))


def _generic_elem(k):
    vs = []
    idx = []
    for s in k._shape:
        v = T.fresh("g")
        e = ctx().norm(s)
        idx.append(I.var(v, e))
        vs.append((v, e))
    return vs, to_R(k.getter()(tuple(idx)))


def _all_nonneg(k):
    vs, r = _generic_elem(k)
    f = cmp("<=", R.const(0), r)
    return ctx().known(_closed(vs, f)) is True


def _closed(vs, f):
    for v, e in reversed(vs):
        f = T.forall(v, e, f)
    return f


def _check_bounds(k, n):
    vs, r = _generic_elem(k)
    f = band(cmp("<=", R.of(-n), r), cmp("<", r, R.of(n)))
    if not ctx().decide(_closed(vs, f)):
        prog_raise(IndexError("index is out of bounds"))


def setitem(a, key, v):
    v = asarray(v)
    if not isinstance(key, tuple):
        key = (key,)
    kl = [k for k in key]
    advb = [k for k in kl if isinstance(k, SymArray) and k.ndim > 0 or isinstance(k, list)]
    if advb:
        if len(kl) == 1 and isinstance(kl[0], SymArray) and kl[0].kind == "b" and v.ndim == 0:
            # a[mask] = scalar
            m = kl[0]
            mg = adapt(m, a._shape) if m.ndim == a.ndim else None
            if mg is not None:
                if not all(dim_eq(x, y) for x, y in zip(m._shape, a._shape)):
                    prog_raise(IndexError("boolean index did not match indexed array"))
                old = a.getter()
                val = v.at()
                write(a, lambda idx: T.ite(_tb(mg(idx)), store(val, v.kind, a.kind), old(idx)))
                return
        return set_fancy(a, kl, v)
    # build the sub-view (scalars included)
    sub = _subview(a, key)
    b = broadcast_to(v, sub.shape) if sub.ndim else v.reshape(()) if v.ndim == 0 else _to0(v)
    g = b.getter()
    base = a.buf
    old = base.fn
    inv = sub.inv
    akind, vkind = a.kind, v.kind

    def newfn(idx):
        cond, w = inv(idx)
        if cond.op == "false":
            return old(idx)
        val = store(g(w), vkind, akind)
        if cond.op == "true":
            return val
        return T.ite(cond, val, old(idx))
    if base.maybe:
        raise Unsupported("a reshaped view that is written")
    base.fn = _memo(newfn)
    base.writes += 1


def set_fancy(a, key, v):
    """a[.., sel, ..] = v for one mask or index array among slices, v the same for all selected positions
    or a single position selected"""
    if any(k is None for k in key):
        raise Unsupported("fancy assignment")
    if len(key) == 1 and isinstance(key[0], SymArray) and key[0].kind == "b" and key[0].ndim == a.ndim > 1 and a.imap is None:
        m = key[0]
        if not all(dim_eq(x, y) for x, y in zip(m._shape, a._shape)):
            prog_raise(IndexError("boolean index did not match indexed array"))
        f = a.copy().ravel().copy()
        set_fancy(f, [m.copy().ravel()], v)
        shape, g = a._shape, f.getter()
        write(a, lambda idx: g((flat_index(idx, shape),)))
        return
    n = sum(k.ndim if isinstance(k, SymArray) and k.kind == "b" else 1 for k in key if k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        key[p:p + 1] = [slice(None)] * (a.ndim - n)
    else:
        key = key + [slice(None)] * (a.ndim - n)
    if len(key) != a.ndim:
        raise Unsupported("fancy assignment")
    key = [asarray(k) if isinstance(k, (list, SymList)) else k for k in key]
    adv = [p for p, k in enumerate(key) if isinstance(k, SymArray) and k.ndim > 0]
    if len(adv) != 1 or key[adv[0]].ndim != 1:
        raise Unsupported("fancy assignment")
    p = adv[0]
    k = key[p]
    d = a._shape[p]
    if any(not isinstance(x, slice) for q, x in enumerate(key) if q != p):
        raise Unsupported("fancy assignment")
    sl = {q: norm_slice(x, a._shape[q]) for q, x in enumerate(key) if q != p}
    if any(not (isinstance(st, int) or isinstance(st, I)) or (step != 1) for (st, ln, step) in sl.values()):
        raise Unsupported("fancy assignment")
    if k.kind == "b":
        if not dim_eq(k._shape[0], d):
            prog_raise(IndexError("boolean index did not match indexed array"))
        cnt, _ = mask_select(k)
        kg = k.getter()
        chosen = lambda i: _tb(kg((i,)))
    elif k.kind == "i":
        _check_bounds(k, d)
        cnt = k._shape[0]
        kg = k.getter()

        def chosen(i):
            w = T.fresh("w")
            x = int_term(to_R(kg((I.var(w, cnt),))))
            return T.exists(w, cnt, bor(cmp("==", x, i), cmp("==", x + d, i)))
    else:
        if k._shape[0].cval() == 0:
            return
        prog_raise(IndexError("arrays used as indices must be of integer (or boolean) type"))
    shape = tuple(cnt if q == p else sl[q][1] for q in range(a.ndim))
    off = a.ndim - v.ndim
    one = p < off or ctx().norm(v._shape[p - off]).cval() == 1
    if not one and ctx().norm(cnt).cval() == 1:
        one = True
    if not one and k.kind != "b":
        raise Unsupported("fancy assignment of different values")
    b = broadcast_to(v, shape)
    g = b.getter()
    old = a.getter()

    def fn(idx):
        cond = chosen(idx[p])
        w = list(idx)
        w[p] = C0 if one else mask_rank(k, idx[p])
        for q, (st, ln, _) in sl.items():
            w[q] = idx[q] - st
            cond = band(cond, cmp("<=", I.of(st), idx[q]), cmp("<", idx[q], I.of(st) + ln))
        return T.ite(cond, store(g(tuple(w)), v.kind, a.kind), old(idx))
    write(a, fn)


def _to0(v):
    if v.size == 1:
        return v.reshape(())
    prog_raise(ValueError("setting an array element with a sequence."))


def write(a, fn):
    if a.imap is None:
        if a.buf.maybe:
            raise Unsupported("a reshaped view that is written")
        a.buf.fn = _memo(fn)
        a.buf.writes += 1
    else:
        raise Unsupported("masked write through a view")


def store(val, frm, to):
    if to == "i" and frm == "f":
        return r_trunc(to_R(val))
    if to == "b" and frm != "b":
        return _tb(val)
    if to != "b" and frm == "b":
        return to_R(val)
    return val


def _subview(a, key):
    """like basic getitem, but never collapses to a scalar"""
    ident = SymArray(a._shape, kind=a.kind, buf=a.buf,
                     imap=a.imap or (lambda i: i), inv=a.inv or (lambda b: (TRUE, b)))
    kk = list(key)
    if any(k is Ellipsis for k in kk):
        p = [k is Ellipsis for k in kk].index(True)
        n = len([k for k in kk if k is not None and k is not Ellipsis])
        kk[p:p + 1] = [slice(None)] * (a.ndim - n)
    kk = [k._as_scalar() if isinstance(k, SymArray) else k for k in kk]
    # append a dummy axis so that full integer indexing stays a view
    ext = SymArray(a._shape + (C1,), kind=a.kind, buf=a.buf,
                   imap=lambda idx: ident.imap(idx[:-1]),
                   inv=lambda b: (lambda r: (r[0], r[1] + (C0,)))(ident.inv(b)))
    n = len([k for k in kk if k is not None])
    if n > a.ndim:
        prog_raise(IndexError("too many indices for array"))
    kk += [slice(None)] * (a.ndim - n)
    v = getitem(ext, tuple(kk) + (slice(None),))
    return SymArray(v._shape[:-1], kind=a.kind, buf=a.buf,
                    imap=lambda idx: v.imap(idx + (C0,)),
                    inv=lambda b: (lambda r: (r[0], r[1][:-1]))(v.inv(b)))


# ----------------------------------------------------------------- linear algebra

def lam2(a):
    """matrix -> closed lambda over two placeholder indices"""
    n, m = ctx().norm(a._shape[0]), ctx().norm(a._shape[1])
    v, w = T.fresh("r"), T.fresh("c")
    body = ctx().norm(to_R(a.getter()((I.var(v, n), I.var(w, m)))))
    return T.lam([(v, n), (w, m)], body)


def lamN(a):
    vs = []
    for s in a._shape:
        v = T.fresh("r")
        e = ctx().norm(s)
        VA = I.var(v, e)
        vs.append((v, e))
    body = a.getter()(tuple(I.var(v) for v, _ in vs))
    if a.kind != "b":
        body = to_R(body)
    return T.lam(vs, ctx().norm(body))


def content(body, bound):
    """split a polynomial into (scalar factor, rest): common coefficients and common
    index-free atoms"""
    if not body.t:
        return None, body
    g = None
    common = None
    for c, (bs, fs) in body.t.values():
        g = abs(c) if g is None else T._fgcd(g, abs(c))
        bn = bound | {v for v, _ in bs}
        d = {h(n): (n, q) for n, q in fs if not (T.fv(n) & bn)}
        if common is None:
            common = d
        else:
            nd = {}
            for k, (n, e) in common.items():
                if k in d and (e > 0) == (d[k][1] > 0):
                    e2 = d[k][1]
                    nd[k] = (n, min(e, e2) if e > 0 else max(e, e2))
            common = nd
    f = T.Acc()
    f.add_norm(g, (), tuple(common.values()))
    fac = f.result()
    if fac.cval() == 1:
        return fac, body
    inv = T.Acc()
    inv.add_norm(1 / g, (), tuple((n, -q) for n, q in common.values()))
    return fac, body * inv.result()


def is_square(a):
    return dim_eq(a._shape[0], a._shape[1])


def matrix_op(name, a):
    """inv / pinv: homogeneous of degree -1, commute with transposition"""
    lm = lam2(a)
    (v, n), (w, m) = lm.a[0]
    body = lm.a[1]
    # identity / diagonal shortcuts
    fac, rest = content(body, {v, w})
    if fac is None:
        if name.startswith("pinv"):
            return SymArray((a._shape[1], a._shape[0]), lambda i: R.const(0), "f")
        prog_raise(LinAlgError("Singular matrix"))
    if fac.cval() is None:
        ctx().note("scalar factors of an inverted matrix are non-zero")
    if rest == R.atom(N("del", I.var(v), I.var(w))):
        k = fac ** -1
        return SymArray((n, m), lambda i: k * delta(i[0], i[1]), "f")
    # 1x1
    if n.cval() == 1 and m.cval() == 1:
        r = T.subst(rest, {v: C0, w: C0}) * fac
        ctx().note("divisors are non-zero")
        val = r ** -1
        return SymArray((C1, C1), lambda i: val, "f")
    lamA = T.lam([(v, n), (w, m)], rest)
    lamT = T.lam([(w, m), (v, n)], rest)
    ha, ht = h(lamA), h(lamT)
    k = fac ** -1
    if ha == ht:
        op = N("op", (name, "sym"), lamA)
        op = N("op", name, ("sym",), lamA)
        return SymArray((m, n), lambda i: k * R.atom(N("el", op, i[0], i[1])), "f")
    if ht < ha:
        op = N("op", name, (), lamT)
        # op(A) = op(A^T)^T
        return SymArray((m, n), lambda i: k * R.atom(N("el", op, i[1], i[0])), "f")
    op = N("op", name, (), lamA)
    return SymArray((m, n), lambda i: k * R.atom(N("el", op, i[0], i[1])), "f")


def np_inv(a):
    if is_scalar(a):
        prog_raise(LinAlgError("0-dimensional array given. Array must be at least two-dimensional"))
    a = asarray(a)
    if a.ndim < 2:
        prog_raise(LinAlgError(f"{a.ndim}-dimensional array given. Array must be at least two-dimensional"))
    if a.ndim > 2:
        raise Unsupported("stacked inv")
    if not is_square(a):
        prog_raise(LinAlgError("Last 2 dimensions of the array must be square"))
    ctx().note("matrices passed to np.linalg.inv are invertible (LinAlgError otherwise)")
    # inv(inv(A)) = A
    return matrix_op("inv", a)


def np_pinv(a, rcond=None, hermitian=False, **kw):
    if is_scalar(a):
        prog_raise(LinAlgError("0-dimensional array given."))
    a = asarray(a)
    if a.ndim < 2:
        prog_raise(LinAlgError("1-dimensional array given. Array must be at least two-dimensional"))
    if a.ndim > 2:
        raise Unsupported("stacked pinv")
    kw = {k: v for k, v in kw.items() if v is not None}
    if "rtol" in kw:
        rcond = kw.pop("rtol")
    if kw:
        raise Unsupported("pinv options")
    if hermitian is not False and not (is_square(a) and matrix_symmetric(a)):
        raise Unsupported("pinv of a matrix not known to be symmetric, as hermitian")
    if rcond is not None:
        c = to_R(rcond).cval()
        if c is None:
            raise Unsupported("pinv cutoff")
        if c > 1e-13:
            # a truncated pseudo-inverse is another function of the matrix
            return matrix_op(f"pinv_cut{float(c):g}", a)
    return matrix_op("pinv", a)


def matrix_symmetric(a):
    lm = lam2(a)
    (v, n), (w, m) = lm.a[0]
    return h(T.lam([(v, n), (w, m)], lm.a[1])) == h(T.lam([(w, m), (v, n)], lm.a[1]))


def np_solve(a, b):
    a, b = asarray(a), asarray(b)
    if not is_square(a):
        prog_raise(LinAlgError("Last 2 dimensions of the array must be square"))
    return np_matmul(np_inv(a), b)


class Opaque:
    """a value the library contract says nothing about"""

    def __init__(self, what):
        object.__setattr__(self, "_pyvc_what", what)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "_pyvc_what"))

    __getattribute__ = lambda self, n: object.__getattribute__(self, n) if n.startswith("__") or n == "_no" else self._no()
    __getitem__ = __len__ = __iter__ = __call__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = _no
    __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __pow__ = __matmul__ = _no
    __rmatmul__ = __float__ = __int__ = __index__ = __array__ = _no


def np_lstsq(a, b, rcond=-1, **kw):
    """the minimum-norm least-squares solution: pinv(a) @ b"""
    if kw:
        raise Unsupported("lstsq options")
    if is_scalar(a):
        prog_raise(LinAlgError("0-dimensional array given. Array must be two-dimensional"))
    a, b = asarray(a), asarray(b)
    if a.ndim != 2 or b.ndim not in (1, 2):
        prog_raise(LinAlgError("Array must be two-dimensional"))
    if not dim_eq(a._shape[0], b._shape[0]):
        prog_raise(LinAlgError("Incompatible dimensions"))
    if isinstance(rcond, str):
        raise Unsupported("lstsq cutoff")
    p = np_pinv(a, None if rcond is None or (isinstance(rcond, (int, float)) and rcond < 0) else rcond)
    return (np_matmul(p, b), Opaque("residuals of lstsq"), Opaque("rank of lstsq"), np_svd(a, compute_uv=False))


def np_conj(x):
    return np_add(x, 0)


np_conjugate = np_conj


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    if ord == 2 and x.ndim == 2 and axis is None:
        raise Unsupported("spectral norm")
    return np_sqrt(np_sum(np_multiply(x, x), axis=axis, keepdims=keepdims))


def np_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = asarray(a)
    if a.ndim != 2:
        if a.ndim < 2:
            prog_raise(LinAlgError("array must be at least two-dimensional"))
        raise Unsupported("stacked svd")
    m, n = ctx().norm(a._shape[0]), ctx().norm(a._shape[1])
    if ctx().decide(cmp("<=", m, n)):
        k = ctx().norm(m)
    else:
        k = ctx().norm(n)
    lm = lam2(a)
    u = N("op", "svd_u", lm)
    s = N("op", "svd_s", lm)
    vt = N("op", "svd_vt", lm)
    S = SymArray((k,), lambda i: R.atom(N("el", s, i[0])), "f")
    if not compute_uv:
        return S
    U = SymArray((m, m if full_matrices else k), lambda i: R.atom(N("el", u, i[0], i[1])), "f")
    V = SymArray((n if full_matrices else k, n), lambda i: R.atom(N("el", vt, i[0], i[1])), "f")
    return U, S, V


# ----------------------------------------------------------------- random numbers

def rng_seed(s=None):
    c = ctx()
    if s is None:
        c.rng = ("fresh", T.fresh("entropy"))
    else:
        c.rng = ("seed", s if isinstance(s, (int, str)) else h(to_R(s)))
    c.rngpos = C0
    c.events.append(("seed", c.rng))


def _rng_draw(kind, n):
    c = ctx()
    if not isinstance(c.rngpos, I):
        c.rngpos = C0
    # the gaussian stream and the uniform stream share the generator state; runs of
    # the same kind are positions in one stream, a change of kind starts a new one
    st = c.rng
    if st[0] != "run" or st[1] != kind:
        c.rng = ("run", kind, (st, h(c.rngpos)))
        c.rngpos = C0
    t = N("op", "rng", kind, repr(c.rng))
    off = c.rngpos
    c.rngpos = c.norm(off + n)
    return t, off


def _draw(kind, shape):
    shape = tuple(to_I(s) for s in shape)
    t, off = _rng_draw(kind, total(shape))
    if not shape:
        return SymReal(R.atom(N("el", t, off)), np=False)
    return SymArray(shape, lambda i: R.atom(N("el", t, off + flat_index(i, shape))), "f")


def rng_randn(*shape):
    return _draw("gauss", shape)


def rng_rand(*shape):
    return _draw("uniform", shape)


def _size(size):
    if size is None:
        return ()
    if isinstance(size, (tuple, list)):
        return tuple(size)
    return (size,)


def rng_normal(loc=0.0, scale=1.0, size=None):
    if size is None and (isinstance(loc, SymArray) or isinstance(scale, SymArray)):
        sh = bshape([asarray(loc)._shape, asarray(scale)._shape])
        size = tuple(mkint(s) for s in sh)
    d = _draw("gauss", _size(size))
    return np_add(loc, np_multiply(scale, d)) if isinstance(d, SymArray) else loc + scale * d


def rng_uniform(low=0.0, high=1.0, size=None):
    if size is None and (isinstance(low, SymArray) or isinstance(high, SymArray)):
        sh = bshape([asarray(low)._shape, asarray(high)._shape])
        size = tuple(mkint(s) for s in sh)
    d = _draw("uniform", _size(size))
    if isinstance(d, SymArray):
        return np_add(low, np_multiply(np_subtract(high, low), d))
    return low + (high - low) * d


def rng_choice(a, size=None, replace=True, p=None):
    if p is not None:
        raise Unsupported("choice p")
    n = to_I(a) if is_scalar(a) else asarray(a)._shape[0]
    shape = tuple(to_I(s) for s in _size(size))
    t, off = _rng_draw("choice" + h(n) + str(replace), total(shape))

    def idx(i):
        q = I.atom(N("ia", "rngidx", t, n, off + flat_index(i, shape)))
        return q
    if is_scalar(a):
        r = SymArray(shape, lambda i: R.of(idx(i)), "i")
    else:
        g = asarray(a).getter()
        r = SymArray(shape, lambda i: g((idx(i),)), asarray(a).kind)
    return finish(r)


smt.IAFACTS["rngidx"] = lambda n, me, tr: [cmp("<=", C0, me), cmp("<", me, n.a[2])]


def rng_permutation(x):
    if is_scalar(x):
        x = np_arange(x)
    a = asarray(x)
    n = ctx().norm(a._shape[0])
    t, off = _rng_draw("perm" + h(n), n)
    g = a.getter()
    return SymArray(a._shape, lambda i: g((I.atom(N("ia", "permidx", t, n, h(off), i[0])),) + i[1:]), a.kind)


def rng_shuffle(x):
    if isinstance(x, SymArray):
        x[...] = rng_permutation(x)
    elif isinstance(x, list):
        n = len(x)
        if n > 1:
            raise Unsupported("shuffle of a list")
    else:
        raise Unsupported("shuffle")


smt.IAFACTS["permidx"] = lambda n, me, tr: [cmp("<=", C0, me), cmp("<", me, n.a[2])]


# ----------------------------------------------------------------- misc

def np_isscalar(x):
    return is_scalar(x) or isinstance(x, str)


def np_shape(x):
    return asarray(x).shape


def np_ndim(x):
    return asarray(x).ndim


def np_size(x, axis=None):
    a = asarray(x)
    return a.size if axis is None else a.shape[axis]


def np_copy(a):
    return asarray(a).copy()


def np_copyto(dst, src, **kw):
    if kw:
        raise Unsupported("copyto options")
    dst[...] = src


def np_ptp(a, axis=None):
    return np_subtract(np_max(a, axis=axis), np_min(a, axis=axis))


def np_diff(a, n=1, axis=-1):
    a = asarray(a)
    if n != 1:
        raise Unsupported("diff n")
    ax = axis % a.ndim
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[ax] = slice(1, None)
    k2[ax] = slice(None, -1)
    return np_subtract(a[tuple(k1)], a[tuple(k2)])


def np_take(a, idx, axis=None):
    a = asarray(a)
    if axis is None:
        return a.ravel()[idx]
    key = [slice(None)] * a.ndim
    key[axis] = idx
    return a[tuple(key)]


class Finfo:
    def __init__(self, d=None):
        self.eps = SymReal(R.atom(N("c", "eps")), np=True)
        self.tiny = SymReal(R.atom(N("c", "tiny")), np=True)


import numpy as _realnp  # only for attribute names
NDARRAY_ATTRS = set(dir(_realnp.ndarray))
NP_NAMES = set(dir(_realnp)) | {"float", "int", "product", "in1d", "row_stack", "trapz", "alltrue"}
