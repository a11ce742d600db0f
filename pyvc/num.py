"""Numeric backend: the same contracts run on the real package (CPython + numpy) with
random concrete inputs.  It is the replayer of failed obligations, the cross check of the
verifier's library contracts, and the bounded stand-in where the verifier cannot follow.

  python -m pyvc.num run   PROP --seed S --budget SEC [--only NAME --choices JSON --dims JSON]
  python -m pyvc.num replay FILE
"""
import argparse
import atexit
import contextlib
import importlib
import io
import json
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback
import warnings

SRC = os.environ.get("PYVC_SRC", "/repo/src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import numpy as np  # noqa: E402
import scipy.stats as sst  # noqa: E402

from pyvc.known import load as load_known, matches  # noqa: E402

from .contract import Outcome  # noqa: E402
from . import contract  # noqa: E402


class NumSkip(Exception):
    """this random input does not meet the preconditions"""


class NumFail(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class PathDone(Exception):
    pass


class UserDistNum:
    def __init__(self, name, bycol, rng):
        self.name, self.bycol = name, bycol
        self.a = rng.normal(size=12) * 0.7
        self.s = 0.6 + rng.random(12)
        self.kwfac = 0.0
        self.amp = 1.0 if rng.random() < 0.5 else float(rng.random() * 3 + 0.2)
        if rng.random() < 0.06:
            self.amp *= 10.0 ** -int(rng.integers(6, 18))       # densities far away from the samples

    def pdf(self, x, **k):
        x = np.asarray(x)
        if self.bycol and x.ndim == 2:
            j = np.arange(x.shape[-1]) % 12
        else:
            j = 0
        f = 1.0 + 0.37 * sum(float(v) * (sum(map(ord, n)) % 7 + 1) for n, v in sorted(k.items()))
        return f * self.amp * np.exp(-0.5 * ((x - self.a[j]) / self.s[j]) ** 2) / self.s[j]

    def logpdf(self, x, **k):
        return np.log(self.pdf(x, **k))

    def mean(self):
        return self.a[0]

    def std(self):
        return self.s[0]

    def rvs(self, size=None, random_state=None):
        if random_state is not None:
            np.random.seed(random_state)
        return np.random.randn(*(() if size is None else np.atleast_1d(size)))


class Recorder:
    def __init__(self, events, path):
        self.__dict__.update(_e=events, _p=path, _a={})

    def __call__(self, *a, **k):
        self._e.append(("call", self._p, snap(a), snap(k)))
        last = self._p.rsplit(".", 1)[-1]
        if last in ("get_ylim", "get_xlim"):
            return (-0.25, 1.75)
        if last == "subplots":
            nr = a[0] if len(a) > 0 else k.get("nrows", 1)
            nc = a[1] if len(a) > 1 else k.get("ncols", 1)
            axs = np.empty((nr, nc), dtype=object)
            for i in range(nr * nc):
                axs.flat[i] = Recorder(self._e, "ax")
            return Recorder(self._e, "fig"), axs[0, 0] if nr * nc == 1 else axs.ravel() if 1 in (nr, nc) else axs
        if last in ("add_subplot", "gca", "axes", "twinx", "subplot"):
            return Recorder(self._e, "ax")
        if last in ("figure", "gcf"):
            return Recorder(self._e, "fig")
        return Recorder(self._e, self._p + "()")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self._a.get(n) or Recorder(self._e, f"{self._p}.{n}")

    def __setattr__(self, n, v):
        self._a[n] = v


def snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


_SCRATCH = []


def scratch():
    """a directory of this process, removed at exit"""
    if not _SCRATCH:
        _SCRATCH.append(tempfile.mkdtemp(prefix="pyvc-"))
        atexit.register(shutil.rmtree, _SCRATCH[0], True)
    return _SCRATCH[0]


class NumB:
    symbolic = False

    def __init__(self, rng, choices=None, dims=None, style=None):
        self.rng = rng
        self.np = np
        self.stats = Stats
        self.choices, self.dimv = {}, {}
        self.fch, self.fdim = choices or {}, dims or {}
        self.rec = {}
        self.checked = 0
        self._events = []
        self._undo = []
        self.pre, self.mute, self.fixed = "", False, False
        self.style = style or ("int" if rng.random() < 0.15 else "gauss")

    def rehearse(self, fn):
        """runs the scenario with other arrays of the same shapes and without obligations; then starts over"""
        self.pre, self.mute = "earlier ", True
        try:
            fn(self)
        except (NumSkip, NumFail, PathDone):
            pass
        except Exception:
            pass
        self.pre, self.mute, self.fixed = "", False, True
        self.undo()
        del self._events[:]
        self.checked = 0

    def undo(self):
        for m, o in reversed(self._undo):
            m.plt = o
        del self._undo[:]

    def mud(self, name):
        return importlib.import_module("mud." + name if name else "mud")

    def assume_separated(self, X, k):
        s = np.linalg.svd(X, compute_uv=False)
        s = np.append(s, 0.0)[:k + 1]
        self.assume(len(s) == k + 1 and np.all(s[:-1] - s[1:] > 0.02 * max(s[0], 1e-3)))

    def same_sign(self, vec, got):
        """the rows of vec, each with the sign of that of got (rounding may flip a direction)"""
        if np.shape(got) != np.shape(vec):
            return vec
        return vec * np.where(np.sum(vec * got, axis=1, keepdims=True) < 0, -1.0, 1.0)

    def pickled(self, obj):
        d = scratch()
        self.nfiles = getattr(self, "nfiles", 0) + 1
        f = os.path.join(d, "file%d" % self.nfiles)
        with open(f, "wb") as fp:
            pickle.dump(obj, fp)
        return f

    def no_file(self):
        return os.path.join(scratch(), "missing")

    def lib(self, name):
        return importlib.import_module(name)

    # -- inputs
    def dim(self, name, lo=1, hi=None, num=None):
        if self.fixed and name in self.dimv:
            return self.dimv[name]
        a, b = num if num is not None else (lo, lo + 3)
        if hi is not None:
            b = min(b, int(hi))
        if b < a:
            raise NumSkip()
        r = int(self.rng.integers(a, b + 1))
        d = self.fdim.get(name)
        if d is None or not (lo <= d <= max(b, 8)) or (hi is not None and d > hi):
            d = r
        d = int(d)
        self.dimv[name] = d
        return d

    def index(self, name, n):
        if n < 1:
            raise NumSkip()
        r = int(self.rng.integers(0, n))
        d = self.fdim.get(name)
        if d is None or not 0 <= d < n:
            d = r
        self.dimv[name] = d
        return d

    def array(self, name, *shape, sym=False, pos=False, nonneg=False, lo=None, hi=None, graded=False, real=False):
        shape = tuple(int(s) for s in shape)
        r = self.rng
        if sym:
            n = shape[0]
            q = r.normal(size=(n, n))
            a = q @ q.T / n + np.eye(n) * (0.3 + r.random())
        elif lo is not None or hi is not None:
            a = r.uniform(lo, hi, size=shape)
        elif self.style == "int":
            a = r.integers(-2, 4, size=shape).astype(float)
        else:
            a = r.normal(size=shape) * float(np.exp(r.normal() * 0.4)) + r.normal() * 0.3
        if graded and r.random() < 0.4:
            a = a * 10.0 ** -r.uniform(0, 4, size=(shape[0],) + (1,) * (len(shape) - 1))
        if pos:
            a = np.abs(a) + 0.05
        elif nonneg:
            a = np.abs(a) * (r.random(size=shape) > 0.2)
            if a.size and a.max() == 0:
                a = a + 0.5
        a = np.asarray(a, dtype=float)
        if self.style == "int" and shape and not (sym or real or lo is not None or hi is not None or graded):
            q = r.integers(-2, 6, size=shape)
            if r.random() < 0.5:
                a = np.abs(q) + 1 if pos else np.abs(q) if nonneg else q
        self.rec[self.pre + name] = a.tolist()
        return a if shape else float(a)

    def spd(self, name, n):
        return self.array(name, n, n, sym=True)

    def int_array(self, name, *shape):
        a = self.rng.integers(-5, 8, size=tuple(int(s) for s in shape))
        self.rec[self.pre + name] = a.tolist()
        return a

    def idx_array(self, name, n, bound):
        if int(bound) < 1 and int(n) > 0:
            raise NumSkip()
        a = self.rng.integers(0, max(1, int(bound)), size=int(n))
        self.rec[self.pre + name] = a.tolist()
        return a

    def idx_arrays(self, name, n, bound):
        return [self.idx_array(f"{name}{k}", int(self.rng.integers(1, 5)), bound) for k in range(n)]

    def as_list(self, a):
        return a.tolist()      # python numbers: the entries of a list of scalars

    def ragged(self, name, n, *shape, lo=1, pos=False):
        sz = self.__dict__.setdefault("_sizes", {})
        if n not in sz:
            sz[n] = [int(self.rng.integers(lo, lo + 4)) for _ in range(n)]
        return [self.array(f"{name}{k}", sz[n][k], *shape, pos=pos) for k in range(n)]

    def bool_array(self, name, *shape):
        a = self.rng.random(size=tuple(int(s) for s in shape)) < 0.5
        self.rec[self.pre + name] = a.tolist()
        return a

    def real(self, name, pos=False, nonneg=False, nonzero=False):
        v = float(self.rng.normal() * 1.5)
        if pos or nonneg:
            v = abs(v) + 0.05
        if nonzero and abs(v) < 0.05:
            v = 0.7
        if self.rng.random() < 0.12:        # values that code likes to treat specially
            v = float(self.rng.choice([1.0] if pos else [1.0, -1.0] if nonzero else [0.0, 1.0] if nonneg else [0.0, 0.0, 1.0, -1.0]))
        self.rec[self.pre + name] = v
        return v

    def dist(self, name, bycol=True, pos=False):
        d = UserDistNum(name, bycol, self.rng)
        self.rec[self.pre + "dist " + name] = {"mean": d.a.tolist(), "std": d.s.tolist(), "amp": d.amp}
        return d

    def frozen(self, kind, loc, scale):
        return getattr(sst, kind)(loc=loc, scale=scale)

    def choice(self, label, opts):
        opts = list(opts)
        k = None
        if self.fixed and label in self.choices:
            for o in opts:
                if (o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)) == self.choices[label]:
                    return o
        r = int(self.rng.integers(0, len(opts)))
        if label in self.fch:
            for i, o in enumerate(opts):
                s = o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)
                if s == self.fch[label] or str(s) == str(self.fch[label]):
                    k = i
        if k is None:
            k = r
        o = opts[k]
        self.choices[label] = o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)
        return o

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise NumSkip()

    assume_valid = assume

    def well(self, *mats, lim=1e5):
        """numerical conditioning (rounding is not part of the contracts)"""
        for m in mats:
            m = np.atleast_2d(np.asarray(m, dtype=float))
            if m.size and (np.abs(m).max() < 1e-9 or np.linalg.cond(m) > lim):
                raise NumSkip()

    def spread(self, y):
        """density estimates need samples that do not lie in a subspace"""
        c = np.asarray(y, dtype=float)
        self.well(np.cov(c.T))

    def seed(self, s):
        np.random.seed(s)

    def rng_draw(self, *shape):
        return np.random.randn(*shape)

    # -- spec helpers
    def sum(self, n, f):
        r = 0.0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def prod(self, n, f):
        r = 1.0
        for k in range(int(n)):
            r = r * f(k)
        return r

    def forall(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(k)) for k in range(int(n)))

    def table(self, shape, f):
        shape = tuple(int(s) for s in shape)
        a = np.zeros(shape)
        for idx in np.ndindex(*shape):
            a[idx] = f(*idx)
        return a

    def selected(self, n, mask):
        if mask is None:
            return n, lambda j: j
        ix = np.flatnonzero(mask) if np.asarray(mask).dtype == bool else np.asarray(mask)
        return len(ix), lambda j: int(ix[j])

    def length(self, L):
        return len(L)

    def item(self, L, k):
        return L[int(k)]

    def el(self, a, *idx):
        return a[tuple(int(i) for i in idx)] if isinstance(a, np.ndarray) else a

    def lor(self, a, b):
        return bool(a) or bool(b)

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lnot(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return float(np.sqrt(x))

    def log(self, x):
        return float(np.log(x))

    def is_true(self, c):
        return bool(c)

    # -- running
    def call(self, f, /, *a, **k):
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return Outcome(value=f(*a, **k))
        except Exception as e:
            if self.fdim and isinstance(e, np.linalg.LinAlgError):
                raise NumSkip()            # sizes of a counterexample too small for the library call: not an input
            return Outcome(exc=e)

    def get(self, o, label):
        if o.exc is not None:
            self.fail(label + ": returns normally", f"raises {type(o.exc).__name__}: {str(o.exc)[:300]}")
        return o.value

    def run(self, label, f, /, *a, **k):
        return self.get(self.call(f, *a, **k), label)

    # -- obligations
    def ok(self, label, backend=""):
        self.checked += 1

    def fail(self, label, detail=""):
        raise NumFail(label, detail)

    def ensure(self, cond, label):
        self.checked += 1
        if not bool(np.all(cond)):
            raise NumFail(label, "does not hold")

    def raises(self, o, label, types=Exception):
        self.checked += 1
        if o.exc is None:
            raise NumFail(label, f"returns normally: {_s(o.value)}")
        if not isinstance(o.exc, types):
            raise NumFail(label, f"raises {type(o.exc).__name__}: {o.exc}")

    def eq(self, a, b, label, tol=1e-6):
        self.checked += 1
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or (type(a) == type(b) and a == b)):
                raise NumFail(label, f"{_s(a)} expected {_s(b)}")
            return
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.dtype == object or y.dtype == object:
                raise ValueError("object array")
        except Exception as e:
            raise NumFail(label, f"not comparable: {_s(a)} expected {_s(b)}")
        if x.shape != y.shape:
            raise NumFail(label + " (shape)", f"shape {x.shape} expected {y.shape}")
        if x.size == 0:
            return
        x, y = x.astype(float), y.astype(float)
        if np.any(np.isnan(y)) or np.any(np.isinf(y)):
            if np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.isfinite(y) & np.isclose(x, y, rtol=1e-5))):
                return
            raise NumSkip()
        scale = max(1e-9, float(np.max(np.abs(y))))
        if np.any(np.isnan(x)) or float(np.max(np.abs(x - y))) > tol * scale + 1e-9:
            raise NumFail(label, f"{_s(a)} expected {_s(b)}")

    def shape_is(self, a, shape, label):
        self.checked += 1
        if tuple(np.shape(a)) != tuple(int(s) for s in shape):
            raise NumFail(label, f"shape {np.shape(a)} expected {shape}")

    # -- frames
    def havoc(self, L):
        pass

    def freeze(self, *arrs):
        return [(x, x.copy()) for x in arrs if isinstance(x, np.ndarray)]

    def unchanged(self, frozen, label):
        label = "frame: " + label
        self.checked += 1
        for x, c in frozen:
            if x.shape != c.shape or not np.array_equal(x, c, equal_nan=True):
                raise NumFail(label, f"argument changed to {_s(x)} from {_s(c)}")

    def no_alias(self, a, b, label):
        self.checked += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
            raise NumFail(label, "shares memory")

    def events(self):
        return self._events

    def arrays(self, name, n, *shape):
        return [self.array(f"{name}{k}", *shape) for k in range(n)]

    def calls(self, name):
        """the recorded calls of that name on the axes given, or ("*.plot") on any axes"""
        if name.startswith("*"):
            return [e for e in self._events if e[0] == "call" and e[1].rsplit(".", 1)[-1] == name[2:]]
        return [e for e in self._events if e[0] == "call" and e[1] == name]

    def callee(self, mod, name, fn):
        pass

    def same(self, a, b):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))

    def recorded_axes(self):
        for name, m in list(sys.modules.items()):
            if m is not None and (name == "mud" or name.startswith("mud.")) and hasattr(m, "plt"):
                self._undo.append((m, m.plt))
                m.plt = Recorder(self._events, "plt")

    def recorded_limits(self):
        return (-0.25, 1.75)

    def recorder(self, name):
        return Recorder(self._events, name)

    def lst(self, a):
        return np.asarray(a).tolist()

    def known(self, c):
        return bool(c)

    def unsupported(self, why):
        raise NumSkip()


class Stats:
    """scipy.stats for the contracts' own use: inputs it refuses are no inputs"""
    norm, uniform = sst.norm, sst.uniform

    @staticmethod
    def gaussian_kde(*a, **k):
        try:
            return sst.gaussian_kde(*a, **k)
        except np.linalg.LinAlgError:
            raise NumSkip()


def _s(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def forget():
    """the package as it is when a process starts"""
    ms = [m for m in sys.modules if m == "mud" or m.startswith("mud.")]
    for m in ms:
        del sys.modules[m]
    for m in ms:
        importlib.import_module(m)


def one(c, seed, choices=None, dims=None, style=None):
    """-> (status, info)"""
    rng = np.random.default_rng(seed)
    B = NumB(rng, choices, dims, style)
    np.random.seed(int(rng.integers(0, 2**31)))
    import random
    random.seed(seed)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            c.fn(B)
    except NumSkip:
        return "skip", B, None
    except PathDone:
        return "ok", B, None
    except NumFail as e:
        return "fail", B, (e.label, e.detail)
    except Exception as e:
        if misshapen(e):
            return "fail", B, ("results have the stated form", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-600:])
        return "error", B, ("contract error", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    finally:
        B.undo()
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
    return "ok", B, None


def misshapen(e):
    """did the specification fail on the results themselves (too few entries, None, another shape, an attribute
    of the results that raises)?"""
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    last = max((k for k, f in enumerate(files) if "/contracts/" in f), default=None)
    if last is None or any(f.endswith("pyvc/num.py") for f in files[last + 1:]):
        return False
    if any("/mud/" in f for f in files[last + 1:]):
        return not isinstance(e, (NameError, ImportError)) and "attribute '_" not in str(e)
    return isinstance(e, (IndexError, ValueError, TypeError)) or isinstance(e, AttributeError) and "'NoneType'" in str(e)


def record(prop, c, seed, B, info, style):
    return {"property": prop, "contract": c.name, "seed": seed, "style": style, "label": info[0], "detail": info[1],
            "choices": B.choices, "dims": B.dimv, "inputs": B.rec,
            "reproduce": "cd /verif && MPLBACKEND=Agg PYTHONPATH=/verif /opt/venv/bin/python -m pyvc.num replay <this file>"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("arg")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--trials", type=int, default=0)
    ap.add_argument("--only")
    ap.add_argument("--part")
    ap.add_argument("--choices")
    ap.add_argument("--dims")
    ap.add_argument("--out")
    ap.add_argument("--style")
    ap.add_argument("--fresh", action="store_true")
    a = ap.parse_args()
    import tempfile
    scratch = tempfile.mkdtemp(prefix="pyvcnum")
    os.chdir(scratch)
    try:
        return _main(a)
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a):
    if a.mode == "replay":
        with open(a.arg) as f:
            rec = json.load(f)
        case = rec.get("failing_input") or rec
        if "seed" not in case:
            print("no failing input was found for this obligation; verifier output:")
            print(json.dumps(rec, indent=1)[:4000])
            return 1
        cs = [c for c in contract.load(rec["property"]) if c.name == case["contract"]]
        st, B, info = one(cs[0], case["seed"], case.get("choices"), case.get("dims"), case.get("style"))
        print(json.dumps({"status": st, "info": info, "choices": B.choices, "dims": B.dimv, "inputs": B.rec}, indent=1))
        return 1 if st == "fail" else 0
    out = {}
    cs = [c for c in contract.load(a.arg) if c.numeric and (not a.only or c.name == a.only)]
    if a.part:
        i, n = map(int, a.part.split("/"))
        cs = cs[i::n]
    choices = json.loads(a.choices) if a.choices else None
    dims = json.loads(a.dims) if a.dims else None
    # import the package once before the clock starts
    import mud.base  # noqa
    t0 = time.time()
    kfs = load_known()
    state = {}
    for c in cs:
        state[c.name] = {"trials": 0, "ok": 0, "skip": 0, "checked": 0, "fail": None, "error": None, "t": 0.0,
                         "distinct": set(), "sample": None}
    active = list(cs)
    k = 0
    while active and time.time() - t0 < a.budget:
        for c in list(active):
            s = state[c.name]
            if time.time() - t0 > a.budget:
                break
            lim = a.trials or c.trials or (200 if a.part else 600)
            if s["trials"] >= lim:
                active.remove(c)
                continue
            if s["t"] > max(1.0, 2.0 * a.budget * c.weight / max(1, sum(x.weight for x in cs))):
                active.remove(c)
                continue
            seed = (a.seed * 1000003 + s["trials"]) % (2**31)
            t1 = time.time()
            style = a.style if s["trials"] % 2 == 0 else None
            if a.fresh:
                forget()
            st, B, info = one(c, seed, choices if s["trials"] % 3 != 2 else choices, dims if s["trials"] % 2 == 0 else None, style)
            s["t"] += time.time() - t1
            s["trials"] += 1
            s["checked"] += B.checked
            if st == "ok":
                s["ok"] += 1
                s["distinct"].add(json.dumps([B.choices, B.dimv], sort_keys=True))
                if s["sample"] is None:
                    s["sample"] = {"choices": B.choices, "dims": B.dimv}
            elif st == "skip":
                s["skip"] += 1
            elif st == "fail" and any(matches(kf, a.arg, c.name, info[0], B.choices) for kf in kfs):
                for kf in kfs:                                    # recorded: the search goes on
                    if matches(kf, a.arg, c.name, info[0], B.choices):
                        s.setdefault("known", {}).setdefault(kf["id"], record(a.arg, c, seed, B, info, style))
            elif st == "fail":
                s["fail"] = record(a.arg, c, seed, B, info, style)
                active.remove(c)
            else:
                s["error"] = info[1]
                active.remove(c)
        k += 1
    for s in state.values():
        s["distinct"] = len(s["distinct"])
        s["t"] = round(s["t"], 3)
    txt = json.dumps({"contracts": state, "wall": round(time.time() - t0, 2)})
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(txt)
    return 0


if __name__ == "__main__":
    sys.exit(main())
