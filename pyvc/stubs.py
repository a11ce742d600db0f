"""Stand-ins for the external libraries the code under verification imports.

numpy  -> the symbolic array library (assumed contracts of numpy operations)
scipy / sklearn -> assumed contracts, opaque where the numerical content is not needed
matplotlib, click, prettytable, wget, tqdm ... -> recorders: every call is kept as an event
"""
import inspect
import types

from . import terms as T
from . import symnp as S
from .terms import I, R, N, h, cmp, band, HALF
from .ctx import (ctx, Static, Unsupported, prog_raise, SymInt, SymReal, SymBool, mkint, to_R, to_I, r_div)


_SIGS = {}


def limited(f, name):
    """calls that do not fit the modelled signature are beyond the verifier"""
    sig = _SIGS.get(f)
    if sig is None:
        sig = _SIGS[f] = inspect.signature(f)

    def g(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise Unsupported(f"{name}: {e}")
        return f(*a, **k)
    g.__name__ = name
    g._pyvc_fn = f
    return g


class Fn(Static):
    """a library function; what it carries besides the call has no contract"""

    def __init__(self, f, name, **extra):
        self._f = f
        self.__name__ = name
        self.__dict__.update(extra)
        if hasattr(f, "_pyvc_fn"):
            self._pyvc_fn = f._pyvc_fn

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"no contract for {self.__name__}.{n}")


def _ufunc_attrs(t):
    """the reductions and the outer form of the binary ufuncs"""
    red = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min",
           "logical_and": "all", "logical_or": "any"}
    out = {}
    for n in ("add", "subtract", "multiply", "divide", "maximum", "minimum", "power",
              "logical_and", "logical_or"):
        if n not in t:
            continue
        e = {}
        if n in red:
            def reduce(a, axis=0, dtype=None, out=None, keepdims=False, _r=red[n]):
                if dtype is not None or out is not None:
                    raise Unsupported("reduce dtype/out")
                a = S.asarray(a)
                if axis is None and a.ndim == 0:
                    return a
                return getattr(S, "np_" + _r)(a, axis=axis, keepdims=keepdims)
            e["reduce"] = limited(reduce, f"numpy.{n}.reduce")

        def outer(a, b, _f=t[n]):
            a, b = S.asarray(a), S.asarray(b)
            return _f(a[(Ellipsis,) + (None,) * b.ndim], b)
        e["outer"] = limited(outer, f"numpy.{n}.outer")
        out[n] = e
    return out


class Mod(types.ModuleType):
    def __init__(self, name, table, known=None):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__["_pyvc_known"] = known
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        known = self.__dict__.get("_pyvc_known")
        if known is not None and name not in known:
            prog_raise(AttributeError(f"module '{self.__name__}' has no attribute '{name}'"))

        full = f"{self.__name__}.{name}"
        return Opaque(full)


class Opaque:
    """a library name without a model: any use is beyond the verifier"""

    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported(f"no contract for {self._name}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self._name + "." + n)

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getitem__(self, k):
        return self

    def __mro_entries__(self, bases):
        return (OpaqueBase,)


class OpaqueBase:
    pass


# ------------------------------------------------------------------ numpy

def _table(prefix):
    d = {}
    for n in dir(S):
        if n.startswith(prefix):
            f = getattr(S, n)
            if callable(f):
                nm = n[len(prefix):]
                d[nm] = limited(f, "numpy." + nm)
    return d


def np_sort(a, axis=-1):
    a = S.asarray(a)
    c = a._shape[axis].cval()
    if c == 1 or c == 0:
        return a.copy()
    raise Unsupported("sort")


def build_numpy():
    t = _table("np_")
    real_meth = dict(t)
    for nm in ("inv", "pinv", "solve", "norm", "svd", "multi_dot", "lstsq"):
        t.pop(nm, None)
    lin = {nm: limited(getattr(S, "np_" + nm), "numpy.linalg." + nm)
           for nm in ("inv", "pinv", "solve", "norm", "svd", "multi_dot", "lstsq")}
    lin["LinAlgError"] = S.LinAlgError
    import numpy as real
    linalg = Mod("numpy.linalg", lin, set(dir(real.linalg)))
    rnd = {
        "seed": limited(S.rng_seed, "numpy.random.seed"),
        "randn": S.rng_randn, "rand": S.rng_rand,
        "standard_normal": limited(lambda size=None: S.rng_normal(0.0, 1.0, size) if size is not None else S.rng_randn(), "standard_normal"),
        "normal": limited(S.rng_normal, "numpy.random.normal"),
        "uniform": limited(S.rng_uniform, "numpy.random.uniform"),
        "choice": limited(S.rng_choice, "numpy.random.choice"),
        "random": limited(lambda size=None: S._draw("uniform", S._size(size)), "numpy.random.random"),
        "shuffle": limited(S.rng_shuffle, "numpy.random.shuffle"),
        "permutation": limited(S.rng_permutation, "numpy.random.permutation"),
    }
    random = Mod("numpy.random", rnd, set(dir(real.random)))
    typing_ = Mod("numpy.typing", {"ArrayLike": TypingName("ArrayLike"), "NDArray": TypingName("NDArray"),
                                   "DTypeLike": TypingName("DTypeLike")})
    t.update({
        "array": limited(S.array, "numpy.array"), "asarray": limited(S.asarray, "numpy.asarray"),
        "asfarray": limited(lambda a: S.asarray(a, float), "asfarray"),
        "asanyarray": limited(S.asarray, "numpy.asanyarray"),
        "ascontiguousarray": limited(S.asarray, "ascontiguousarray"),
        "ndarray": S.SymArray, "linalg": linalg, "random": random, "typing": typing_,
        "pi": SymReal(R.atom(N("c", "pi"))), "inf": float("inf"), "nan": float("nan"), "newaxis": None,
        "e": SymReal(R.atom(N("ap", "exp", R.const(1)))),
        "float64": S.NPType("float64", "f"), "float32": S.NPType("float32", "f"), "float16": S.NPType("float16", "f"), "single": S.NPType("single", "f"), "double": S.NPType("double", "f"),
        "int64": S.NPType("int64", "i"), "int32": S.NPType("int32", "i"), "intp": S.NPType("intp", "i"),
        "bool_": S.NPType("bool_", "b"), "floating": S.NPType("floating", "f"),
        "integer": S.NPType("integer", "i"), "number": S.NPType("number", "n"),
        "generic": S.NPType("generic", "n"), "object_": S.NPType("object_", "o"),
        "finfo": S.Finfo, "dtype": S.DType, "sort": limited(np_sort, "numpy.sort"),
        "amin": t["min"], "amax": t["max"], "absolute": t["abs"], "true_divide": t["divide"],
        "around": t["round"], "nanmax": t["max"], "nanmin": t["min"], "nansum": t["sum"], "nanmean": t["mean"],
        "nanargmax": t["argmax"], "fmax": t["maximum"], "fmin": t["minimum"], "bitwise_and": t["logical_and"],
        "not_equal": lambda a, b: S.np_cmp("!=", a, b), "greater": lambda a, b: S.np_cmp(">", a, b),
        "less": lambda a, b: S.np_cmp("<", a, b), "greater_equal": lambda a, b: S.np_cmp(">=", a, b),
        "less_equal": lambda a, b: S.np_cmp("<=", a, b), "equal": lambda a, b: S.np_cmp("==", a, b),
        "r_": Opaque("numpy.r_"), "c_": Opaque("numpy.c_"),
        "errstate": lambda **k: _Null(),
        "seterr": lambda **k: {},
    })
    extra = _ufunc_attrs(t)
    for nm, f in list(t.items()):
        if isinstance(f, types.FunctionType):
            t[nm] = Fn(f, "numpy." + nm, **extra.get(nm, {}))
    for tab in (linalg.__dict__, random.__dict__):
        for nm, f in list(tab.items()):
            if isinstance(f, types.FunctionType):
                tab[nm] = Fn(f, tab["__name__"] + "." + nm)
    m = Mod("numpy", t, S.NP_NAMES)
    m.__dict__["__version__"] = "1.26.4"
    return {"numpy": m, "numpy.linalg": linalg, "numpy.random": random, "numpy.typing": typing_}


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class TypingName:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a):
        raise TypeError("typing name")

    def __repr__(self):
        return self.n

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getitem__(self, k):
        return self


# ------------------------------------------------------------------ scipy.stats

class DistGen:
    """an (unfrozen) scipy.stats continuous distribution"""

    def __init__(self, name):
        self.name = name

    def __call__(self, loc=0, scale=1, **k):
        if k:
            raise Unsupported("shape parameters")
        return Frozen(self, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        return Frozen(self, loc, scale).pdf(x)

    def logpdf(self, x, loc=0, scale=1):
        return Frozen(self, loc, scale).logpdf(x)

    def cdf(self, x, loc=0, scale=1):
        return Frozen(self, loc, scale).cdf(x)

    def ppf(self, q, loc=0, scale=1):
        return Frozen(self, loc, scale).ppf(q)

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return Frozen(self, loc, scale).rvs(size=size, random_state=random_state)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"scipy.stats.{self.name}.{n}")


class rv_frozen:
    pass


class Frozen(rv_frozen):
    def __init__(self, dist, loc, scale, tag=None):
        self.dist = dist
        self.name = dist.name
        self._loc, self._scale = loc, scale
        self.args = ()
        self.kwds = {"loc": loc, "scale": scale}
        self.tag = tag

    def _z(self, x):
        x = S.asarray(x) if not S.is_scalar(x) else x
        return S.np_divide(S.np_subtract(x, self._loc), self._scale)

    def pdf(self, x, **k):
        if k:
            raise Unsupported("pdf kwargs")
        n = self.name
        if n == "uniform":
            def f(x, l, s):
                x, l, s = to_R(x), to_R(l), to_R(s)
                return T.ite(band(cmp("<=", l, x), cmp("<=", x, l + s)), r_div(R.const(1), s), R.const(0))
            return S.ufunc(f, _a(x), _a(self._loc), _a(self._scale), kind="f")

        def f(x, l, s):
            x, l, s = to_R(x), to_R(l), to_R(s)
            z = r_div(x - l, s)
            return r_div(R.atom(N("ap", "pospdf:" + n, sq_if_even(n, z))), s)
        return S.ufunc(f, _a(x), _a(self._loc), _a(self._scale), kind="f")

    def logpdf(self, x, **k):
        p = self.pdf(x, **k)
        if self.name == "uniform":
            return S.ufunc(lambda v: R.atom(N("ap", "log", to_R(v))), p, kind="f")

        def f(x, l, s):
            x, l, s = to_R(x), to_R(l), to_R(s)
            z = r_div(x - l, s)
            return S.r_fun("log")(R.atom(N("ap", "pospdf:" + self.name, sq_if_even(self.name, z)))) - S.r_fun("log")(s)
        return S.ufunc(f, _a(x), _a(self._loc), _a(self._scale), kind="f")

    def cdf(self, x):
        return S.ufunc(lambda x, l, s: r_cdf(self.name, r_div(to_R(x) - to_R(l), to_R(s))),
                       _a(x), _a(self._loc), _a(self._scale), kind="f")

    def ppf(self, q):
        if self.name == "uniform":
            return S.np_add(self._loc, S.np_multiply(self._scale, q))
        return S.ufunc(lambda x, l, s: to_R(l) + to_R(s) * r_ppf(self.name, to_R(x)),
                       _a(q), _a(self._loc), _a(self._scale), kind="f")

    def mean(self):
        if self.name == "uniform":
            return S.np_add(self._loc, S.np_multiply(0.5, self._scale))
        if self.name == "norm":
            return S.np_add(self._loc, 0.0)
        raise Unsupported("mean of " + self.name)

    def std(self):
        if self.name == "norm":
            return S.np_add(self._scale, 0.0)
        if self.name == "uniform":
            return S.np_divide(self._scale, S.np_sqrt(12.0))
        raise Unsupported("std of " + self.name)

    def var(self):
        s = self.std()
        return S.np_multiply(s, s)

    def interval(self, c):
        raise Unsupported("interval")

    def rvs(self, size=None, random_state=None):
        if random_state is not None:
            S.rng_seed(random_state)
        if size is None:
            size = tuple(mkint(s) for s in S.bshape([_a(self._loc)._shape, _a(self._scale)._shape]))
        kind = {"norm": "gauss", "uniform": "uniform"}.get(self.name, self.name)
        d = S._draw(kind, S._size(size))
        return S.np_add(self._loc, S.np_multiply(self._scale, d))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"frozen distribution .{n}")


def sq_if_even(n, z):
    """norm pdf is a function of the square of its argument"""
    return z * z if n == "norm" else z


def _a(x):
    return S.asarray(x)


class UserDist:
    """an arbitrary distribution-like object supplied by the caller: pdf elementwise,
    possibly different in every column"""

    def __init__(self, name, bycol=True, pos=False):
        self.name = name
        self.bycol = bycol
        self.pos = pos

    def pdf(self, x, **k):
        x = S.asarray(x)
        g = x.getter()
        kw = "".join(f",{a}={h(to_R(b)) if S.is_scalar(b) else b}" for a, b in sorted(k.items()))
        nm = ("pospdf:" if self.pos else "pdf:") + self.name + kw

        def fn(idx):
            a = (to_R(g(idx)),) + ((R.of(idx[-1]),) if self.bycol and len(idx) == 2 else (R.const(0),) if self.bycol else ())
            return R.atom(N("ap", nm, *a))
        return S.finish(S.SymArray(x._shape, fn, "f"))

    def logpdf(self, x, **k):
        return S.np_log(self.pdf(x, **k))

    def mean(self):
        return SymReal(R.atom(N("ts", "mean:" + self.name)))

    def std(self):
        return SymReal(R.atom(N("ts", "std:" + self.name)))

    def rvs(self, size=None, random_state=None):
        if random_state is not None:
            S.rng_seed(random_state)
        return S._draw("dist:" + self.name, S._size(size))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"distribution .{n}")


class gaussian_kde:
    """assumed contract: the density estimate is a fixed positive function of the data
    set (d x n), the normalised weights and the bandwidth rule; equal weights are the
    default"""

    def __init__(self, dataset, bw_method=None, weights=None):
        d = S.np_atleast_2d(S.asarray(dataset)).copy()
        c = ctx()
        if d.ndim > 2:
            prog_raise(ValueError("`dataset` must be 2-d"))
        n = c.norm(d._shape[1])
        if not c.decide(cmp("<", I.const(1), n)):
            prog_raise(ValueError("`dataset` input should have multiple elements."))
        self._d = c.norm(d._shape[0])
        self._n = c.norm(n)
        self._ds = S.lamN(d)
        self._bw = _bwkey(bw_method)
        self._w = None
        if weights is not None:
            w = S.np_atleast_1d(S.asarray(weights))
            if w.ndim != 1:
                prog_raise(ValueError("`weights` input should be one-dimensional."))
            if not S.dim_eq(w._shape[0], n):
                prog_raise(ValueError("`weights` input should be of length n"))
            lm = S.lamN(w)
            (v, e), = lm.a[0]
            fac, rest = S.content(lm.a[1], {v})
            if fac is not None and rest.cval() is None:
                self._w = T.lam([(v, e)], rest)
            if fac is not None and fac.cval() is None:
                c.note("the sum of weights handed to a density estimate is non-zero")

    def evaluate(self, points):
        p = S.np_atleast_2d(S.asarray(points))
        c = ctx()
        d, m = c.norm(p._shape[0]), c.norm(p._shape[1])
        if not S.dim_eq(d, self._d):
            if d.cval() == 1 and S.dim_eq(m, self._d):
                p = S.np_reshape(p, (mkint(self._d), 1))
                m = I.const(1)
            else:
                prog_raise(ValueError(f"points have dimension {d}, dataset has dimension {self._d}"))
        g = p.getter()
        dd = c.norm(self._d)

        def fn(idx):
            v = T.fresh("q")
            lam = T.lam([(v, dd)], to_R(g((I.var(v, dd), idx[0]))))
            args = [self._ds, lam] + ([self._w] if self._w is not None else [])
            return R.atom(N("ap", "pospdf:kde:" + self._bw + ("w" if self._w is not None else ""), *args))
        return S.SymArray((m,), fn, "f")

    pdf = evaluate
    __call__ = evaluate

    def logpdf(self, x):
        return S.np_log(self.evaluate(x))

    @property
    def d(self):
        return mkint(self._d)

    @property
    def n(self):
        return mkint(self._n)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc") or n in ("prod",):
            raise AttributeError(n)
        raise Unsupported(f"gaussian_kde.{n}")


def _bwkey(b):
    if b is None or b == "scott" if not isinstance(b, SymReal) else False:
        return "scott"
    if isinstance(b, str):
        if b not in ("silverman",):
            prog_raise(ValueError("`bw_method` should be 'scott', 'silverman', a scalar or a callable."))
        return b
    if S.is_scalar(b):
        return "scalar(" + (str(to_R(b)) if len(str(to_R(b))) < 60 else h(to_R(b))) + ")"
    if hasattr(b, "_pyvc_token"):
        return b._pyvc_token
    raise Unsupported("bw_method callable")


def margins(a):
    a = S.asarray(a)
    out = []
    for k in range(a.ndim):
        ax = tuple(j for j in range(a.ndim) if j != k)
        out.append(S.np_sum(a, axis=ax, keepdims=True) if ax else a)
    return out


class rv_continuous:
    pass


def _single(r):
    """the only atom of a term that is a multiple of it -> (coefficient, atom)"""
    if len(r.t) == 1:
        (co, (bs, fs)), = r.t.values()
        if not bs and len(fs) == 1 and fs[0][1] == 1:
            return co, fs[0][0]
    return None, None


def _odd(name, inverse):
    """an odd function with its inverse"""
    def f(r):
        if r.cval() == 0:
            return R.const(0)
        co, n = _single(r)
        if n is not None and co in (1, -1) and n.op == "ap" and n.a[0] == inverse:
            return n.a[1].scale(co)
        if r.t and all(m[0] < 0 for m in r.t.values()):
            return -R.atom(N("ap", name, -r))
        return R.atom(N("ap", name, r))
    return f


r_erf, r_erfinv = _odd("erf", "erfinv"), _odd("erfinv", "erf")


def erfinv(x):
    return S._u1(r_erfinv)(x)


def sp_erf(x):
    return S._u1(r_erf)(x)


def r_cdf(name, z):
    if name == "norm":
        return (r_erf(r_div(z, R.const(2) ** HALF)) + 1).scale(HALF)
    return R.atom(N("ap", "cdf:" + name, z))


def r_ppf(name, q):
    if name == "norm":
        return R.const(2) ** HALF * r_erfinv(q.scale(2) - 1)
    return R.atom(N("ap", "ppf:" + name, q))


def norm_cdf(x):
    return S._u1(lambda r: r_cdf("norm", r))(x)


def norm_ppf(q):
    return S._u1(lambda r: r_ppf("norm", r))(q)


def build_scipy():
    dists = {n: DistGen(n) for n in ("norm", "uniform", "beta", "gamma", "expon", "t", "logistic", "laplace", "cauchy")}
    distributions = Mod("scipy.stats.distributions", dict(dists, rv_frozen=rv_frozen, rv_continuous=rv_continuous))
    contingency = Mod("scipy.stats.contingency", {"margins": limited(margins, "margins")})
    stats = Mod("scipy.stats", dict(dists, distributions=distributions, gaussian_kde=gaussian_kde,
                                    rv_continuous=rv_continuous, contingency=contingency))
    special = Mod("scipy.special", {"erfinv": limited(erfinv, "erfinv"), "erf": limited(sp_erf, "erf"), "ndtr": limited(lambda x: norm_cdf(x), "ndtr"), "ndtri": limited(lambda q: norm_ppf(q), "ndtri")})
    linalg = Mod("scipy.linalg", {n: limited(getattr(S, "np_" + n), "scipy.linalg." + n)
                                  for n in ("inv", "pinv", "solve", "norm", "svd")})
    interp = Mod("scipy.interpolate", {})
    opt = Mod("scipy.optimize", {})
    sp = Mod("scipy", {"stats": stats, "special": special, "linalg": linalg, "interpolate": interp, "optimize": opt})
    return {"scipy": sp, "scipy.stats": stats, "scipy.stats.distributions": distributions,
            "scipy.stats.contingency": contingency, "scipy.special": special, "scipy.linalg": linalg,
            "scipy.interpolate": interp, "scipy.optimize": opt}


# ------------------------------------------------------------------ sklearn

class StandardScaler:
    """assumed contract: column-wise (x - mean) / std, a zero std counting as one"""

    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.cfg = (with_mean, with_std)

    def fit(self, X):
        X = S.asarray(X)
        if X.ndim != 2:
            prog_raise(ValueError("Expected 2D array, got 1D array instead"))
        self.mean_ = S.np_mean(X, axis=0)
        sd = S.np_std(X, axis=0)
        g = sd.getter()

        def fn(i):
            s = to_R(g(i))
            return T.ite(cmp("==", s, R.const(0)), R.const(1), s)
        self.scale_ = S.SymArray(sd._shape, fn, "f")
        return self

    def transform(self, X):
        X = S.asarray(X)
        r = X
        if self.cfg[0]:
            r = S.np_subtract(r, self.mean_)
        if self.cfg[1]:
            r = S.np_divide(r, self.scale_)
        return r

    def fit_transform(self, X):
        return self.fit(X).transform(X)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"StandardScaler.{n}")


class PCA:
    """assumed contract: the centred data is projected on the leading principal axes; the
    axes and the variances are a fixed function of the data"""

    def __init__(self, n_components=None, *, copy=True, whiten=False, svd_solver="auto", tol=0.0, iterated_power="auto",
                 n_oversamples=10, power_iteration_normalizer="auto", random_state=None):
        if not isinstance(n_components, (int, SymInt, type(None))) or isinstance(n_components, bool):
            raise Unsupported("PCA(n_components=%r)" % (n_components,))
        self.n_components, self.whiten = n_components, whiten
        opts = (svd_solver, tol, iterated_power, n_oversamples, power_iteration_normalizer, random_state)
        self._opts = "" if opts == ("auto", 0.0, "auto", 10, "auto", None) else repr(opts)

    def fit(self, X):
        X = S.asarray(X)
        if X.ndim != 2:
            prog_raise(ValueError("Expected 2D array, got 1D array instead"))
        c = ctx()
        n, p = c.norm(X._shape[0]), c.norm(X._shape[1])
        if self.n_components is None:
            k = n if c.decide(cmp("<=", n, p)) else p
        else:
            k = to_I(self.n_components)
            if not c.decide(band(cmp("<=", k, n), cmp("<=", k, p), cmp("<=", I.const(0), k))):
                prog_raise(ValueError(f"n_components={k} must be between 0 and min(n_samples, n_features)"))
        lm = S.lam2(X)
        comp = N("op", "pca_components" + self._opts, lm)
        var = N("op", "pca_variance" + self._opts, lm)
        k = c.norm(k)
        self.components_ = S.SymArray((k, p), lambda i: R.atom(N("el", comp, i[0], i[1])), "f")
        self.explained_variance_ = S.SymArray((k,), lambda i: R.atom(N("el", var, i[0])), "f")
        vr = N("op", "pca_variance_ratio" + self._opts, lm)
        self.explained_variance_ratio_ = S.SymArray((k,), lambda i: R.atom(N("el", vr, i[0])), "f")
        self.mean_ = S.np_mean(X, axis=0)
        self.n_components_ = mkint(k)
        return self

    def transform(self, X):
        r = S.np_matmul(S.np_subtract(S.asarray(X), self.mean_), self.components_.T)
        return S.np_divide(r, S.np_sqrt(self.explained_variance_)) if self.whiten else r

    def fit_transform(self, X):
        return self.fit(X).transform(X)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported(f"PCA.{n}")


def build_sklearn():
    dec = Mod("sklearn.decomposition", {"PCA": PCA})
    pre = Mod("sklearn.preprocessing", {"StandardScaler": StandardScaler})
    return {"sklearn": Mod("sklearn", {"decomposition": dec, "preprocessing": pre}),
            "sklearn.decomposition": dec, "sklearn.preprocessing": pre}


# ------------------------------------------------------------------ recorders

def snap(x):
    if isinstance(x, S.SymArray):
        return x.copy()
    if getattr(x, "sg", None) is not None:
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def limits(c):
    return tuple(SymReal(R.atom(N("ts", f"limits:{c}{k}"))) for k in (0, 1))


class Recorder:
    """an object of a plotting or command line library: calls are recorded, results are
    recorders again"""

    def __init__(self, path):
        object.__setattr__(self, "_path", path)
        object.__setattr__(self, "_attrs", {})

    def __call__(self, *a, **k):
        c = ctx()
        c.events.append(("call", self._path, snap(a), snap(k)))
        last = self._path.rsplit(".", 1)[-1]
        if last == "subplots":
            nr = a[0] if len(a) > 0 else k.get("nrows", 1)
            nc = a[1] if len(a) > 1 else k.get("ncols", 1)
            fig = Recorder("fig")
            if nr == 1 and nc == 1:
                return fig, Recorder("ax")
            if isinstance(nr, int) and isinstance(nc, int):
                if nr == 1 or nc == 1:
                    return fig, RecList([Recorder("ax") for _ in range(nr * nc)])
                return fig, RecList([RecList([Recorder("ax") for _ in range(nc)]) for _ in range(nr)])
        if last in ("get_ylim", "get_xlim"):
            return limits(last[4])
        if last in ("add_subplot", "gca", "axes", "twinx", "subplot"):
            return Recorder("ax")
        if last in ("figure", "gcf"):
            return Recorder("fig")
        return Recorder(f"{self._path}()")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        if n in self._attrs:
            return self._attrs[n]
        return Recorder(f"{self._path}.{n}")

    def __setattr__(self, n, v):
        self._attrs[n] = v

    def __getitem__(self, k):
        return Recorder(f"{self._path}[{k!r}]")

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        raise Unsupported("iteration over a library object")

    def __len__(self):
        raise Unsupported("len of a library object")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True


class RecList(list):
    _shape = None

    def ravel(self):
        return RecList([y for x in self for y in (x if isinstance(x, RecList) else [x])])

    flatten = ravel

    @property
    def flat(self):
        return iter(self.ravel())

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            return list.__getitem__(list.__getitem__(self, k[0]), k[1])
        return list.__getitem__(self, k)


class RecMod(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__["__path__"] = []
        self.__dict__["_r"] = Recorder(name.split(".")[-1] if name != "matplotlib.pyplot" else "plt")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.__dict__["_r"], n)


class Params:
    """plt.rcParams"""

    def copy(self):
        return dict()

    def update(self, *a, **k):
        pass

    def __getitem__(self, k):
        return None

    def __setitem__(self, k, v):
        pass


def _deco(*a, **k):
    """click-like decorators keep the function"""
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], (Recorder, str)):
        return a[0]
    return lambda f: f


class Click(types.ModuleType):
    def __init__(self):
        super().__init__("click")

    class Group:
        def __init__(self, f, kw):
            self.callback = f
            self.name = getattr(f, "__name__", "group").replace("_", "-")
            self.commands = {}

        def __call__(self, *a, **k):
            return self.callback(*a, **k)

        def command(self, name=None, **k):
            def d(f):
                c = Click.make(f, name)
                self.commands[c.name] = c
                return c
            return d

        def group(self, name=None, **k):
            def d(f):
                g = Click.Group(f, k)
                self.commands[name or f.__name__] = g
                return g
            return d

        def add_command(self, c, name=None):
            self.commands[name or c.name] = c

    class Command:
        def __init__(self, f, name):
            self.callback = f
            self.name = name or getattr(f, "__name__", "cmd").replace("_", "-")
            self.params = list(reversed(getattr(f, "__click_params__", [])))

        def __call__(self, *a, **k):
            return self.callback(*a, **k)

    @staticmethod
    def make(f, name=None):
        return Click.Command(f, name)

    def command(self, name=None, **k):
        if callable(name):
            return Click.make(name)
        return lambda f: Click.make(f, name)

    def group(self, *a, **k):
        if a and callable(a[0]):
            return Click.Group(a[0], {})
        return lambda f: Click.Group(f, k)

    def option(self, *decls, **k):
        def d(f):
            f.__dict__.setdefault("__click_params__", []).append((decls, k))
            return f
        return d

    argument = option

    def version_option(self, *a, **k):
        return lambda f: f

    def pass_context(self, f):
        return f

    pass_obj = pass_context

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Recorder("click." + n)


def build_misc():
    out = {}
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors", "matplotlib.dates", "matplotlib.tri",
              "matplotlib.ticker", "matplotlib.gridspec", "matplotlib.cm", "matplotlib.axes", "matplotlib.figure",
              "pandas", "prettytable", "wget", "tqdm"):
        out[n] = RecMod(n)
    out["matplotlib"].__dict__["pyplot"] = out["matplotlib.pyplot"]
    out["matplotlib.pyplot"].__dict__["rcParams"] = Params()
    out["matplotlib.pyplot"].__dict__["Figure"] = TypingName("Figure")
    out["matplotlib.pyplot"].__dict__["Axes"] = TypingName("Axes")
    out["tqdm"].__dict__["tqdm"] = lambda x, *a, **k: x
    out["click"] = Click()
    return out
