# props: P19 P20 P21 P22 P24
"""Spatio-temporal problems: consistency of the parts, sub-sampling, learned maps, loading."""
from pyvc.contract import contract, META

S = "mud.base.SpatioTemporalProblem."
FIELDS = ["domain", "lam", "lam_ref", "data", "sensors", "times", "measurements", "true_vals", "sample_dist", "std_dev"]


def snapshot(sp):
    return {f: getattr(sp, f) for f in FIELDS}


def same_fields(B, sp, snap, label, but=()):
    for f in FIELDS:
        if f in but:
            continue
        v, w = getattr(sp, f), snap[f]
        if v is None or w is None or isinstance(w, str):
            B.ensure(v is w or (v is not None and w is not None and v == w), label + ": " + f)
        else:
            B.eq(v, w, label + ": " + f)


def put(B, sp, f, v):
    """an admissible setting"""
    B.run("set " + f, setattr, sp, f, v)


class St:
    """an arbitrary consistent state, reached through the public settings"""

    def __init__(self, B, p=None, twice=True):
        self.B = B
        self.sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
        self.p = B.dim("p", num=(1, 3)) if p is None else p
        self.n = B.dim("n", num=(1, 6))
        self.dom = self.lam = None
        self.twice = twice and B.choice("parts set", ["once", "twice"]) == "twice"

    def box(self, name, q):
        np, B = self.B.np, self.B
        lo, wd = B.array(name + "lo", q), B.array(name + "wd", q, nonneg=True)
        if not B.symbolic:
            lo, wd = lo - 1, wd + 2
        return np.column_stack([lo, lo + wd])

    def set_domain(self):
        if self.twice:
            put(self.B, self.sp, "domain", self.box("d0", self.B.dim("p0", num=(1, 3))))
        self.dom = self.box("d", self.p)
        put(self.B, self.sp, "domain", self.dom)

    def set_lam(self):
        B = self.B
        if self.twice:
            put(B, self.sp, "lam", B.array("lam0", B.dim("n0", num=(1, 6)), self.p))
        self.lam = B.array("lam", self.n, self.p)
        put(B, self.sp, "lam", self.lam)

    def set_ref(self):
        """a reference inside the domain"""
        B = self.B
        if self.twice:
            put(B, self.sp, "lam_ref", self.dom[:, 0])
        if B.symbolic:
            self.ref = B.array("ref", self.p)
            B.assume(B.forall(self.p, lambda q: B.land(B.el(self.dom, q, 0) <= B.el(self.ref, q), B.el(self.ref, q) <= B.el(self.dom, q, 1))))
        else:
            u = B.array("u", self.p, lo=0, hi=1)
            self.ref = self.dom[:, 0] + u * (self.dom[:, 1] - self.dom[:, 0])
        put(B, self.sp, "lam_ref", self.ref)


# ------------------------------------------------------------------ P19

@contract("P19", funcs=[S + "__init__"])
def nothing_set(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    for f in FIELDS:
        B.ensure(getattr(sp, f) is None, "unset: " + f)
    for f, t in [("n_samples", AttributeError), ("n_sensors", AttributeError), ("n_ts", AttributeError), ("n_qoi", AttributeError)]:
        B.raises(B.call(getattr, sp, f), "no size before the part is set: " + f, t)
    B.raises(B.call(setattr, sp, "lam_ref", B.array("r", 2)), "a reference needs a domain", AttributeError)
    B.raises(B.call(setattr, sp, "measurements", B.array("z", 2)), "measurements need sensors and times", AttributeError)
    B.raises(B.call(setattr, sp, "true_vals", B.array("z", 2)), "true values need sensors and times", AttributeError)
    for f in FIELDS:
        B.ensure(getattr(sp, f) is None, "still unset: " + f)


@contract("P19", funcs=[S + "lam", S + "domain", S + "n_params", S + "n_samples", S + "n_qoi"])
def set_lam(B):
    np = B.np
    state = B.choice("state", ["empty", "domain", "samples", "domain, samples, reference"])
    st = St(B)
    sp, p, n = st.sp, st.p, B.dim("N", num=(1, 6))
    if state.startswith("domain"):
        st.set_domain()
    if "samples" in state:
        st.set_lam()
    if "reference" in state:
        st.set_ref()
    if B.choice("sampling", ["unset", "set"]) == "set":
        put(B, sp, "sample_dist", "n")
    flat = B.choice("samples", ["flat", "rows"]) == "flat"
    q = 1 if flat else B.dim("q", num=(1, 3))
    x = B.array("X", n) if flat else B.array("X", n, q)
    before = snapshot(sp)
    fz = B.freeze(x)
    o = B.call(setattr, sp, "lam", x)
    B.unchanged(fz, "argument is not modified")
    if state != "empty" and B.is_true(p != q):
        B.raises(o, "samples whose dimension differs from the domain are rejected", ValueError)
        same_fields(B, sp, before, "rejected setting changes nothing")
        return
    B.get(o, "set samples")
    x2 = x.reshape(-1, 1) if flat else x
    B.eq(sp.lam, x2, "samples, one-dimensional ones as a column")
    B.eq(sp.n_samples, n, "number of samples")
    B.eq(sp.n_params, q, "number of parameters")
    if state == "empty":
        B.shape_is(sp.domain, (q, 2), "domain has one row per parameter")
        B.eq(sp.domain[:, 0], np.min(x2, axis=0), "domain is the bounding box of the samples: lower ends")
        B.eq(sp.domain[:, 1], np.max(x2, axis=0), "domain is the bounding box of the samples: upper ends")
    B.ensure(sp.sample_dist == ("u" if before["sample_dist"] is None else before["sample_dist"]), "samples are uniform unless said otherwise")
    same_fields(B, sp, before, "other parts", but=("lam", "sample_dist") + (("domain",) if state == "empty" else ()))


def inside(B, p, dom, x):
    return B.forall(p, lambda q: B.land(B.el(dom, q, 0) <= B.el(x, q), B.el(x, q) <= B.el(dom, q, 1)))


@contract("P19", funcs=[S + "domain"], weight=2)
def set_domain(B):
    state = B.choice("state", ["empty", "domain", "samples", "domain, reference", "domain, samples, reference"])
    st = St(B)
    sp, p, n = st.sp, st.p, st.n
    if state.startswith("domain"):
        st.set_domain()
    if "samples" in state:
        st.set_lam()
    if "reference" in state:
        st.set_ref()
    q = B.dim("q", num=(1, 3))
    if not B.symbolic and "empty" != state and B.choice("fit", [0, 0, 1]) == 0:
        q = p
    new = st.box("new", q)
    if not B.symbolic and state != "empty" and q == p:
        # boxes around what is set, sometimes missing it by one end
        parts = [a.reshape(-1, p) for a in (getattr(st, "ref", None), st.lam) if a is not None]
        if parts:
            al = B.np.vstack(parts)
            new = B.np.column_stack([al.min(axis=0), al.max(axis=0)])
            e = B.choice("end", [0, 0, 1, 2])
            if e:
                new[B.index("row", q), e - 1] += (0.3 if e == 1 else -0.3)
    arg = new.ravel() if B.choice("form", ["rows", "flat"]) == "flat" else new
    before = snapshot(sp)
    fz = B.freeze(arg)
    o = B.call(setattr, sp, "domain", arg)
    B.unchanged(fz, "argument is not modified")
    has_lam, has_ref = "samples" in state, "reference" in state
    ok = True
    if has_lam or has_ref:
        ok = B.is_true(p == q)
    if ok and has_lam:
        ok = B.is_true(B.forall(n, lambda i: B.forall(p, lambda k: B.land(
            B.el(new, k, 0) <= B.el(st.lam, i, k), B.el(st.lam, i, k) <= B.el(new, k, 1)))))
    if ok and has_ref:
        ok = B.is_true(inside(B, p, new, st.ref))
    if not ok:
        B.raises(o, "a domain that excludes samples or reference already set is rejected", ValueError)
        same_fields(B, sp, before, "rejected setting changes nothing")
        return
    B.get(o, "set domain")
    B.eq(sp.domain, new, "domain, one row per parameter")
    same_fields(B, sp, before, "other parts", but=("domain",))


@contract("P19", funcs=[S + "lam_ref"], weight=3)
def set_reference(B):
    st = St(B)
    sp, p = st.sp, st.p
    state = B.choice("state", ["domain", "domain, samples", "domain, reference"])
    st.set_domain()
    if "samples" in state:
        st.set_lam()
    if "reference" in state:
        st.set_ref()
    q = B.dim("size", num=(1, 3)) if B.choice("fits", [1, 0]) == 0 else p
    r = B.array("r", q)
    if not B.symbolic and q == p and B.choice("place", [0, 1]):
        r = st.dom[:, 0] + B.array("u", p, lo=0, hi=1) * (st.dom[:, 1] - st.dom[:, 0])
    form = B.choice("form", ["flat", "column", "row"])
    arg = r if form == "flat" else r.reshape(-1, 1) if form == "column" else r.reshape(1, -1)
    before = snapshot(sp)
    o = B.call(setattr, sp, "lam_ref", arg)
    if not B.is_true(q == p) or not B.is_true(inside(B, p, st.dom, r)):
        B.raises(o, "a reference that is not a point of the domain is rejected", ValueError)
        same_fields(B, sp, before, "rejected setting changes nothing")
        return
    B.get(o, "set reference")
    B.eq(sp.lam_ref, r, "reference, flat")
    same_fields(B, sp, before, "other parts", but=("lam_ref",))


@contract("P19", funcs=[S + "data", S + "n_sensors", S + "n_ts"], weight=2)
def set_data(B):
    np = B.np
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    n = B.dim("n", num=(1, 5))
    s, t = B.dim("s", num=(1, 3)), B.dim("t", num=(1, 3))
    have = B.choice("set before", ["nothing", "sensors", "times", "both", "data"])
    if have == "data":
        s = 1
        put(B, sp, "data", B.array("x0", B.dim("n0", num=(1, 5)), t))
    if have in ("sensors", "both"):
        sp.sensors = B.array("sensors", s, 2) if B.choice("sensors", ["points", "flat"]) == "points" else B.array("sensors", s)
    if have in ("times", "both"):
        sp.times = B.array("times", t)
    form = B.choice("data", ["flat", "rows", "cube"])
    if form == "flat":
        w, x = 1, B.array("x", n)
        x2 = x.reshape(-1, 1)
    elif form == "rows":
        w = B.dim("w", num=(1, 9))
        if not B.symbolic and B.choice("fits", [1, 1, 0]):
            w = s * t if have in ("both", "data") else s if have == "sensors" else t if have == "times" else w
        x = x2 = B.array("x", n, w)
    else:
        a, b = B.dim("a", num=(1, 3)), B.dim("b", num=(1, 3))
        if not B.symbolic and B.choice("fits", [1, 1, 0]):
            a, b = (s, t) if have in ("both", "data") else (s, 1) if have == "sensors" else (1, t) if have == "times" else (a, b)
        w, x = a * b, B.array("x", n, a, b)
        x2 = x.reshape(n, w)
    before = snapshot(sp)
    fz = B.freeze(x)
    o = B.call(setattr, sp, "data", x)
    B.unchanged(fz, "argument is not modified")
    ok = {"nothing": True, "sensors": w == s, "times": w == t, "both": w == s * t, "data": w == t}[have]
    if not B.is_true(ok):
        B.raises(o, "data whose width is not sensors times times is rejected", ValueError)
        same_fields(B, sp, before, "rejected setting changes nothing")
        return
    B.get(o, "set data")
    B.eq(sp.data, x2, "data, one flat row per sample")
    B.eq(sp.n_sensors * sp.n_ts, w, "width is sensors times times")
    if have == "nothing":
        B.eq(sp.n_sensors, 1, "one sensor is assumed")
        B.eq(sp.times, np.arange(w), "times are counted")
    if have == "sensors":
        B.eq(sp.n_ts, 1, "one time is assumed")
    if have == "times":
        B.eq(sp.n_sensors, 1, "one sensor is assumed")
    same_fields(B, sp, before, "other parts", but=("data",) + {"nothing": ("sensors", "times"), "sensors": ("times",), "times": ("sensors",), "both": (), "data": ()}[have])


@contract("P19", funcs=[S + "measurements", S + "true_vals"])
def set_observations(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    s, t = B.dim("s", num=(1, 3)), B.dim("t", num=(1, 3))
    sp.sensors, sp.times = B.array("sensors", s), B.array("times", t)
    f = B.choice("field", ["measurements", "true_vals"])
    form = B.choice("form", ["flat", "column", "row", "grid", "other size"])
    if form == "other size":
        k = B.dim("k", num=(1, 9))
        B.assume(k != s * t)
        before = snapshot(sp)
        o = B.call(setattr, sp, f, B.array("z", k))
        B.raises(o, "values of another number are rejected", ValueError)
        same_fields(B, sp, before, "rejected setting changes nothing")
        return
    if B.choice("values before", ["unset", "set"]) == "set":
        put(B, sp, f, B.array("z0", s, t))
    z = B.array("z", s, t)
    arg = z if form == "grid" else z.ravel() if form == "flat" else z.reshape(-1, 1) if form == "column" else z.reshape(1, -1)
    before = snapshot(sp)
    put(B, sp, f, arg)
    B.eq(getattr(sp, f), z.reshape(-1, 1), "a column of length sensors times times, in the given order")
    same_fields(B, sp, before, "other parts", but=(f,))


@contract("P19", funcs=[S + "sample_dist"])
def set_sampling(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    for d in ("u", "n"):
        put(B, sp, "sample_dist", d)
        B.ensure(sp.sample_dist == d, "sampling distribution is kept")
    for d in ("uniform", "x", ""):
        B.raises(B.call(setattr, sp, "sample_dist", d), "others are rejected", ValueError)
    B.ensure(sp.sample_dist == "n", "rejected setting changes nothing")


@contract("P19", funcs=[S + "validate"])
def validate(B):
    """missing parts are reported, and only then"""
    st = St(B, p=1, twice=False)
    sp = st.sp
    s, t = B.dim("s", num=(1, 3)), B.dim("t", num=(1, 3))
    parts = B.choice("set", ["nothing", "domain", "samples", "samples, data", "samples, data, measurements", "domain, reference, samples, data, truth",
                             "domain, reference, samples, data", "domain, samples, data, truth"])
    if "domain" in parts:
        st.set_domain()
    if "reference" in parts:
        st.set_ref()
    if "samples" in parts:
        st.set_lam()
    if "data" in parts:
        sp.sensors, sp.times = B.array("sensors", s), B.array("times", t)
        put(B, sp, "data", B.array("data", st.n, s * t))
    if "measurements" in parts:
        put(B, sp, "measurements", B.array("meas", s * t))
    if "truth" in parts:
        put(B, sp, "true_vals", B.array("true", s * t))
    meas, true = B.choice("measurements needed", [True, False]), B.choice("truth needed", [True, False])
    o = B.call(sp.validate, check_meas=meas, check_true=true)
    ok = "data" in parts and (not meas or "measurements" in parts) and (not true or ("truth" in parts and "reference" in parts))
    if ok:
        B.get(o, "complete problem is valid")
    else:
        B.raises(o, "missing parts are reported", ValueError)


# ------------------------------------------------------------------ P20

class Full:
    def __init__(self, B, meas=True, points=None, used=False, cube=False):
        self.B = B
        self.sp = sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
        self.n, self.p = B.dim("n", num=(2, 6)), B.dim("p", num=(1, 3))
        self.s, self.t = B.dim("s", num=(1, 3)), B.dim("t", num=(1, 3))
        self.lam = B.array("lam", self.n, self.p)
        given = B.array("data", self.n, self.s, self.t) if cube else B.array("data", self.n, self.s * self.t)
        self.data = given.reshape(self.n, self.s * self.t) if cube else given
        self.sensors = B.array("sensors", self.s, 2) if points else B.array("sensors", self.s)
        self.times = B.array("times", self.t)
        self.meas = B.array("meas", self.s * self.t) if meas else None
        parts = {"sensors": self.sensors, "times": self.times, "lam": self.lam, "data": given}
        if meas:
            parts["measurements"] = self.meas
        if used:
            self.earlier(parts)
        for f, v in parts.items():
            put(B, sp, f, v)
        self.sel = {}

    def earlier(self, parts):
        """the object has been used before, with other parts; leaves in `parts` what is set anew"""
        B, sp = self.B, self.sp
        what = B.choice("set anew", ["everything"] + list(parts))
        old = dict(parts)
        if what == "everything":
            n, s, t = B.dim("n0", num=(2, 6)), B.dim("s0", num=(1, 3)), B.dim("t0", num=(1, 3))
            old.update(lam=B.array("lam0", n, self.p), data=B.array("data0", n, s * t),
                       sensors=B.array("sensors0", s), times=B.array("times0", t))
            if self.meas is not None:
                old["measurements"] = B.array("meas0", s * t)
        else:
            old[what] = B.array("before", *parts[what].shape)
            for f in list(parts):
                if f != what:
                    del parts[f]
        for f, v in old.items():
            put(B, sp, f, v)
        sp.std_dev = 1.0
        B.run("sample_data", sp.sample_data)
        B.run("sample_data", sp.sample_data, samples_mask=[0])
        if self.meas is not None:
            B.run("closest", sp.get_closest_to_measurements)
            B.run("mud_problem", sp.mud_problem, method="wme")
        sp.std_dev = None

    def mask(self, which, ext, kinds=("all", "indices", "flags")):
        B = self.B
        k = B.choice(which + " selected by", list(kinds))
        if k == "all":
            m = None
        elif k == "indices":
            m = B.idx_array(which + "_idx", B.dim(which + "_k", num=(1, 4)), ext)
        else:
            m = B.bool_array(which + "_flag", ext)
        self.sel[which] = B.selected(ext, m)
        B.assume(self.sel[which][0] >= 1)       # something is selected
        return m

    def masks(self, **kinds):
        self.sm = self.mask("samples", self.n, kinds.get("samples", ("all", "indices", "flags")))
        self.tm = self.mask("times", self.t, kinds.get("times", ("all", "indices", "flags")))
        self.xm = self.mask("sensors", self.s, kinds.get("sensors", ("all", "indices", "flags")))
        (self.N, self.fs), (self.T, self.ft), (self.X, self.fx) = self.sel["samples"], self.sel["times"], self.sel["sensors"]
        return dict(samples_mask=self.sm, times_mask=self.tm, sensors_mask=self.xm)


@contract("P20", funcs=[S + "sample_data"], weight=3)
def sub_sample(B):
    meas, points = B.choice("measurements", ["set", "unset"]) == "set", B.choice("sensors", ["points", "flat"]) == "points"
    selected(B, *sub_sampled(B, meas, points))


def sub_sampled(B, meas, points):
    if B.choice("data", ["flat", "per sensor and time"]) == "flat":
        P = Full(B, meas=meas, points=points)
        return P, P.masks()
    P = Full(B, meas=meas, points=points, cube=True)
    return P, P.masks(samples=("all", "indices"), times=("indices", "flags"), sensors=("indices",))


@contract("P20", funcs=[S + "sample_data"], weight=2)
def sub_sample_again(B):
    """parts set anew after an earlier selection"""
    P = Full(B, meas=B.choice("measurements", ["set", "unset"]) == "set", used=True)
    k = ("all", "indices") if B.choice("selection", ["none", "all levels"]) == "none" else ("indices",)
    selected(B, P, P.masks(samples=k[-1:], times=k[:1], sensors=k[-1:]))


def selected(B, P, kw):
    before = snapshot(P.sp)
    lam, times, sensors, data, meas = B.run("sample_data", P.sp.sample_data, **kw)
    N, T, X = P.N, P.T, P.X
    B.eq(lam, B.table((N, P.p), lambda i, j: B.el(P.lam, P.fs(i), j)), "parameters of the selected samples")
    B.eq(times.ravel(), B.table((T,), lambda j: B.el(P.times, P.ft(j))), "selected times")
    if P.sensors.ndim == 2:
        B.eq(sensors, B.table((X, 2), lambda j, c: B.el(P.sensors, P.fx(j), c)), "selected sensors")
    else:
        B.eq(sensors.ravel(), B.table((X,), lambda j: B.el(P.sensors, P.fx(j))), "selected sensors")
    B.eq(data, B.table((N, X, T), lambda i, x, u: B.el(P.data, P.fs(i), P.fx(x) * P.t + P.ft(u))).reshape(N, X * T),
         "data of the selected samples, sensors and times")
    if P.meas is None:
        B.ensure(meas is None, "no measurements")
    else:
        B.eq(meas, B.table((X, T), lambda x, u: B.el(P.meas, P.fx(x) * P.t + P.ft(u))).reshape(X * T),
             "measurements of the selected sensors and times")
    same_fields(B, P.sp, before, "the problem itself is unchanged")


@contract("P20", funcs=[S + "sample_data"])
def no_data(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    B.raises(B.call(sp.sample_data), "nothing to select before data is set", AttributeError)


@contract("P20", funcs=[S + "get_closest_to_measurements"], weight=3)
def closest_to_measurements(B):
    closest(B, Full(B), ("all", "indices"), ("all", "indices", "flags"))


@contract("P20", funcs=[S + "get_closest_to_measurements"], weight=2)
def closest_again(B):
    """parts set anew after an earlier search"""
    closest(B, Full(B, used=True), ("all", "indices"), ("all",))


def closest(B, P, samples, places):
    kw = P.masks(samples=samples, times=places, sensors=places)
    N, T, X = P.N, P.T, P.X

    def dist2(i):
        return B.sum(X * T, lambda k: sq(B, el3(P, i, k) - elm(P, k)))
    r = B.run("closest", P.sp.get_closest_to_measurements, **kw)
    B.shape_is(r, (P.p,), "the whole parameter row")
    np = B.np
    k = np.argmin(np.sqrt(B.table((N,), dist2)))
    B.eq(r, B.table((P.p,), lambda j: B.el(P.lam, P.fs(k), j)), "parameters of the first selected sample closest to the measurements")


def sq(B, x):
    return x * x


def el3(P, i, k):
    return P.B.el(P.data, P.fs(i), P.fx(k // P.T) * P.t + P.ft(k % P.T))


def elm(P, k):
    return P.B.el(P.meas, P.fx(k // P.T) * P.t + P.ft(k % P.T))


@contract("P20", funcs=[S + "get_closest_to_true_vals"])
def closest_to_true_vals(B):
    P = Full(B, meas=False)
    B.raises(B.call(P.sp.get_closest_to_true_vals), "true values are needed", AttributeError)
    tv = B.array("true", P.s * P.t)
    put(B, P.sp, "true_vals", tv)
    r = B.run("closest", P.sp.get_closest_to_true_vals)
    np = B.np
    k = np.argmin(np.sqrt(B.table((P.n,), lambda i: B.sum(P.s * P.t, lambda j: sq(B, B.el(P.data, i, j) - B.el(tv, j))))))
    B.eq(r, B.table((P.p,), lambda j: B.el(P.lam, k, j)), "parameters of the first sample closest to the true values")


@contract("P24", funcs=[S + "plot_ts", S + "sample_data"], bounded="at most 2 sample curves (all numbers of samples, sensors, times)", weight=2)
def time_series(B):
    """measurements and sample curves of one sensor over the selected times"""
    P = Full(B, points=B.choice("sensors", ["points", "flat"]) == "points")
    kw = {"samples": P.mask("samples", P.n), "times": P.mask("times", P.t)}
    (N, fs), (T, ft) = P.sel["samples"], P.sel["times"]
    x = 0
    if B.choice("sensor", ["default", "given"]) == "given":
        x = kw["sensor_idx"] = B.index("x", P.s)
    k = kw["max_plot"] = B.choice("curves", [1, 2])
    if B.symbolic:
        B.assume(N >= k)
    mk, sk = {"color": "b"}, {"color": "g"}
    if B.choice("options", ["default", "given"]) == "given":
        kw.update(meas_kwargs=mk, samples_kwargs=sk, alpha=0.5)
    B.seed(1)
    B.run("plot_ts", P.sp.plot_ts, ax=B.recorder("ax"), **kw)
    B.ensure(mk == {"color": "b"} and sk == {"color": "g"}, "options given stay unchanged")
    B.seed(1)
    draw = B.np.random.choice(N, k if B.symbolic else min(k, N))
    times = B.table((T,), lambda u: B.el(P.times, ft(u)))
    e, = [e for e in B.events() if e[:2] == ("call", "ax.scatter")]
    B.eq(B.np.ravel(e[2][0]), times, "measurements against the selected times")
    B.eq(B.np.ravel(e[2][1]), B.table((T,), lambda u: B.el(P.meas, x * P.t + ft(u))), "measurements of the sensor")
    B.ensure(e[3]["color"] == ("b" if "meas_kwargs" in kw else "k"), "options reach the measurements")
    es = [e for e in B.events() if e[:2] == ("call", "ax.plot")]
    B.ensure(len(es) == (k if B.symbolic else min(k, N)), "as many curves as asked for, if there are so many samples")
    for i, e in enumerate(es):
        B.eq(B.np.ravel(e[2][0]), times, "samples against the selected times")
        y = B.np.ravel(e[2][1])
        B.shape_is(y, (T,), "one value per time")

        def curve(q):
            return B.forall(T, lambda u: B.el(y, u) == B.el(P.data, fs(q), x * P.t + ft(u)))
        B.ensure(B.lor(curve(i), curve(B.el(draw, i) if B.symbolic else int(draw[i]))), "every curve is that of a selected sample")
        if i < len(es) - 1:
            B.ensure(e[3]["color"] == ("g" if "samples_kwargs" in kw else "r"), "options reach the sample curves")


# ------------------------------------------------------------------ P21

def learned(B, method, kinds, weighted, used=False):
    np = B.np
    P = Full(B, used=used)
    sp = P.sp
    sd = B.real("noise", pos=True)
    sp.std_dev = sd
    kw = P.masks(**kinds)
    N, T, X = P.N, P.T, P.X
    if not B.symbolic and method != "wme":
        B.assume(N >= 2 and X * T >= 2)
    w = None
    if weighted != "none":
        w = B.array("w", P.s * P.t, pos=True)
        arg = w if weighted == "flat" else w.reshape(-1, 1) if weighted == "column" else w.reshape(P.s, P.t)
        kw["data_weights"] = arg
    sw = None
    if B.choice("sample weights", ["none", "given"]) == "given":
        sw = B.array("sw", N, pos=True)
        kw["sample_weights"] = sw
    k = 2
    if method != "wme" and B.choice("components", ["default", "given"]) == "given":
        k = B.dim("k", num=(1, 3))
        kw["num_components"] = k
    if not (method == "pca" and B.choice("method", ["named", "default"]) == "default"):
        kw["method"] = method
    if method != "wme":
        B.assume(B.land(k <= N, k <= X * T))
    # the scaled residuals of the selection
    flat = lambda x, u: P.fx(x) * P.t + P.ft(u)
    res = B.table((N, X, T), lambda i, x, u: (B.el(P.meas, flat(x, u)) - B.el(P.data, P.fs(i), flat(x, u))) / sd).reshape(N, X * T)
    if w is not None:
        ws = B.table((X, T), lambda x, u: B.el(w, flat(x, u))).reshape(X * T)
        res = res * (ws / np.sqrt(np.sum(ws * ws)))
    before, fz = snapshot(sp), B.freeze(*[v for v in (w, sw) if v is not None])
    d = B.run("mud_problem", sp.mud_problem, **kw)
    B.unchanged(fz, "arguments are not modified")
    B.eq(d.X, B.table((N, P.p), lambda i, j: B.el(P.lam, P.fs(i), j)), "samples of the problem are the selected ones")
    B.eq(d.domain, sp.domain, "domain of the problem")
    B.eq(d._weights, sw if sw is not None else np.ones(N), "sample weights of the problem")
    if method == "wme":
        q = np.sum(res, axis=1) / np.sqrt(X * T)
        B.eq(d.y, q.reshape(-1, 1), "summed residuals over the square root of their number")
    else:
        std = B.lib("sklearn.preprocessing").StandardScaler().fit_transform(res)
        B.assume_separated(std, k)
        if method == "pca":
            m = B.lib("sklearn.decomposition").PCA(n_components=k).fit(std)
            vec = B.same_sign(m.components_, sp.pca["vecs"])
            B.eq(sp.pca["vecs"], vec, "recorded components")
            B.eq(sp.pca["var"], m.explained_variance_, "recorded variances")
        else:
            vec = B.same_sign(np.linalg.svd(std)[2][0:k, :], sp.svd["singular_vectors"][0:k, :])
            B.eq(sp.svd["singular_vectors"][0:k, :], vec, "recorded singular vectors")
            B.eq(sp.svd["singular_values"], np.linalg.svd(std)[1], "recorded singular values")
        B.eq(d.y, res @ vec.T, "residuals projected on the leading directions, in order")
    same_fields(B, sp, before, "the problem itself is unchanged")


FUN = [S + "mud_problem", S + "sample_data"]
LEVELS = ("all", "indices", "flags")


@contract("P21", funcs=FUN, weight=3)
def summed_residuals(B):
    learned(B, "wme", dict(samples=("all", "indices", "flags"), times=LEVELS, sensors=LEVELS), B.choice("data weights", ["none", "flat", "column", "grid"]))


@contract("P21", funcs=FUN, weight=2)
def summed_residuals_again(B):
    """parts set anew after an earlier problem was built"""
    learned(B, "wme", dict(samples=("all", "indices"), times=("all",), sensors=("all",)), "none", used=True)


@contract("P21", funcs=FUN + ["mud.preprocessing.pca"], weight=2)
def principal_components_again(B):
    learned(B, "pca", dict(samples=("all",), times=("all",), sensors=("all",)), "none", used=True)


@contract("P21", funcs=FUN + ["mud.preprocessing.svd"], weight=2)
def singular_vectors_again(B):
    learned(B, "svd", dict(samples=("all",), times=("all",), sensors=("all",)), "none", used=True)


@contract("P21", funcs=FUN + ["mud.preprocessing.pca"], weight=3)
def principal_components(B):
    learned(B, "pca", dict(samples=("all", "indices"), times=("all", "indices"), sensors=("all", "flags")), B.choice("data weights", ["none", "flat"]))


@contract("P21", funcs=FUN + ["mud.preprocessing.svd"], weight=3)
def singular_vectors(B):
    learned(B, "svd", dict(samples=("all", "indices"), times=("all", "indices"), sensors=("all", "flags")), B.choice("data weights", ["none", "flat"]))


@contract("P21", funcs=FUN)
def rejected(B):
    P = Full(B)
    P.sp.std_dev = B.real("noise", pos=True)
    before = snapshot(P.sp)
    what = B.choice("argument", ["weights", "method"])
    if what == "weights":
        k = B.dim("k", num=(1, 10))
        B.assume(k != P.s * P.t)
        o = B.call(P.sp.mud_problem, method=B.choice("method", ["wme", "pca", "svd"]), data_weights=B.array("w", k, pos=True))
        B.raises(o, "data weights of another number are rejected", ValueError)
    else:
        kw = {} if B.choice("data weights", ["none", "given"]) == "none" else dict(data_weights=B.array("w", P.s * P.t, pos=True))
        o = B.call(P.sp.mud_problem, method=B.choice("name", ["", "PCA", "wm", "mud"]), **kw)
        B.raises(o, "unknown methods are rejected", ValueError)
    same_fields(B, P.sp, before, "the problem itself is unchanged")


# ------------------------------------------------------------------ P22

class Entries:
    """an arbitrary consistent data set: field -> (value handed over, value the problem should hold)"""

    def __init__(self, B, s=None, t=None, p=None):
        np = B.np
        self.n, self.p = B.dim("n", num=(1, 5)), p or B.dim("p", num=(1, 3))
        self.s, self.t = s or B.dim("s", num=(1, 3)), t or B.dim("t", num=(1, 3))
        lam = B.array("lam", self.n, self.p)
        if B.symbolic:
            lo, hi = B.array("lo", self.p), B.array("hi", self.p)
            B.assume(B.forall(self.p, lambda k: B.el(lo, k) <= B.el(hi, k)))
            B.assume(B.forall(self.n, lambda i: B.forall(self.p, lambda k: B.land(B.el(lo, k) <= B.el(lam, i, k), B.el(lam, i, k) <= B.el(hi, k)))))
        else:
            lo, hi = lam.min(axis=0) - 1, lam.max(axis=0) + 1
        # a reference that is a parameter sample lies in every admissible domain
        r = B.index("ref", self.n)
        ref = B.table((self.p,), lambda k: B.el(lam, r, k))
        data, z, m = B.array("data", self.n, self.s * self.t), B.array("true", self.s * self.t), B.array("meas", self.s * self.t)
        dom = np.column_stack([lo, hi])
        sens = B.array("sensors", self.s, 2)
        times = B.array("times", self.t)
        sd = B.real("noise", pos=True)
        self.v = {"lam": (lam, lam), "data": (data, data), "domain": (dom, dom), "sensors": (sens, sens), "times": (times, times),
                  "lam_ref": (ref, ref), "std_dev": (sd, sd), "true_vals": (z, z.reshape(-1, 1)), "measurements": (m, m.reshape(-1, 1)), "sample_dist": ("n", "n")}


ALL = ["lam", "data", "domain", "sensors", "times", "lam_ref", "std_dev", "true_vals", "measurements", "sample_dist"]


def check_fields(B, sp, E, given):
    """the problem holds exactly the given fields (and what follows from them)"""
    np = B.np
    for f in ALL:
        got = getattr(sp, f)
        if f in given:
            want = E.v[f][1]
            if isinstance(want, str):
                B.ensure(got == want, "field holds its entry: " + f)
            elif got is None:
                B.ensure(False, "field holds its entry: " + f)
            else:
                B.eq(got, want, "field holds its entry: " + f)
        elif f == "sample_dist" and "lam" in given:
            B.ensure(got == "u", "samples are uniform unless said otherwise")
        elif f == "domain" and "lam" in given:
            B.eq(got[:, 0], np.min(E.v["lam"][0], axis=0), "absent domain is the bounding box: lower ends")
            B.eq(got[:, 1], np.max(E.v["lam"][0], axis=0), "absent domain is the bounding box: upper ends")
        elif f in ("sensors", "times") and "data" in given:
            B.eq(got.shape[0], (E.s if f == "sensors" else E.t), "absent " + f + " are inferred")
        else:
            B.ensure(got is None, "absent field is unset: " + f)


SOURCES = ["own name", "other name", "explicit", "absent", "empty", "other name, absent"]


@contract("P22", funcs=[S + "load", S + "__init__"], weight=3)
def load_fields(B):
    """one field from each kind of source, the others present or not"""
    f = B.choice("field", ALL)
    src = B.choice("source", SOURCES)
    if f == "sample_dist" and src == "explicit":
        return                                  # a string is a name
    others = B.choice("others", ["all", "samples and data"])
    gone = src in ("absent", "empty", "other name, absent")
    E = Entries(B, s=1 if ((f == "sensors" and gone) or others != "all") else None, t=1 if (f == "times" and gone) else None)
    fields = list(ALL) if others == "all" else ["lam", "data"]
    if f not in fields:
        fields.append(f)
    # what others need
    if gone and f == "lam" and others == "all" and B.choice("domain", ["present", "absent"]) == "absent":
        fields.remove("domain"), fields.remove("lam_ref")
    if f in ("true_vals", "measurements") or f == "sensors":
        if "times" not in fields:
            fields.append("times")
    if gone and f == "data" and others != "all":
        pass
    ds = {}
    for g in fields:
        if g != f:
            ds[g] = E.v[g][0]
    kw = {}
    if src == "own name":
        ds[f] = E.v[f][0]
    elif src == "other name":
        ds["other"] = E.v[f][0]
        if B.choice("entry of its own name", ["none", "another value"]) != "none":
            ds[f] = "decoy"
        kw[f] = "other"
    elif src == "explicit":
        kw[f] = E.v[f][0]
        if B.choice("entry of its own name", ["none", "another value"]) != "none":
            ds[f] = "decoy"
    elif src == "empty":
        ds[f] = None
    elif src == "other name, absent":
        kw[f] = "other"
        if B.choice("entry of its own name", ["none", "another value"]) != "none":
            ds[f] = "decoy"
    keys = list(ds)
    where = B.choice("data set", ["object", "file"]) if src == "own name" else "object"
    given = [g for g in fields if g != f or not gone]
    if not kw and B.choice("handed to", ["load", "constructor"]) == "constructor":
        sp = B.run("construct", B.mud("base").SpatioTemporalProblem, ds if where == "object" else B.pickled(ds))
        check_fields(B, sp, E, given)
        return
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    r = B.run("load", sp.load, ds if where == "object" else B.pickled(ds), **kw)
    check_fields(B, sp, E, given)
    B.ensure(sorted(r) == sorted(keys) and sorted(ds) == sorted(keys), "the data set is returned, with the entries it had")


@contract("P22", funcs=[S + "load"], symbolic=False, bounded="random mixtures of sources for all fields at once")
def load_mixtures(B):
    E = Entries(B, s=1, p=B.choice("parameters", [1, 2]))
    ds, kw, given = {}, {}, []
    for f in ALL:
        src = B.choice("source of " + f, SOURCES if f not in ("lam", "data", "domain", "times") else SOURCES[:3])
        if src == "own name":
            ds[f] = E.v[f][0]
        elif src == "other name" or (src == "explicit" and f == "sample_dist"):
            ds["other " + f] = E.v[f][0]
            kw[f] = "other " + f
        elif src == "explicit":
            kw[f] = E.v[f][0]
        elif src == "empty":
            ds[f] = None
        elif src == "other name, absent":
            kw[f] = "other " + f
        if src in SOURCES[:3]:
            given.append(f)
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    order = B.choice("order of the entries", ["as listed", "reversed"])
    if order == "reversed":
        ds = dict(reversed(list(ds.items())))
        kw = dict(reversed(list(kw.items())))
    B.run("load", sp.load, ds, **kw)
    check_fields(B, sp, E, given)


@contract("P22", funcs=[S + "load"])
def load_again(B):
    """entries of a later data set replace what is set, absent ones leave it"""
    np = B.np
    E = Entries(B)
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    B.run("load", sp.load, {f: E.v[f][0] for f in ALL})
    f = B.choice("field", ALL)
    dom = E.v["domain"][0]
    if f == "lam":
        new = want = B.array("lam2", B.dim("n2", num=(1, 5)), E.p)
    elif f == "domain":
        new = want = np.column_stack([dom[:, 0] - B.array("wl", E.p, nonneg=True), dom[:, 1] + B.array("wr", E.p, nonneg=True)])
    elif f == "lam_ref":
        new = want = dom[:, 1]
    elif f == "std_dev":
        new = want = B.real("noise2", pos=True)
    elif f == "sample_dist":
        new = want = "u"
    elif f in ("true_vals", "measurements"):
        new = B.array("new", E.s * E.t)
        want = new.reshape(-1, 1)
    else:
        new = want = B.array("new", *E.v[f][0].shape)
    src = B.choice("source", ["own name", "other name", "explicit", "absent", "empty"])
    if f == "sample_dist" and src == "explicit":
        return
    ds, kw = {"note": 1}, {}
    if src == "own name":
        ds[f] = new
    elif src == "other name":
        ds["other"], kw = new, {f: "other"}
    elif src == "explicit":
        kw = {f: new}
    elif src == "empty":
        ds[f] = None
    B.run("load again", sp.load, ds, **kw)
    if src not in ("absent", "empty"):
        E.v[f] = (new, want)
    check_fields(B, sp, E, ALL)


@contract("P22", funcs=[S + "load"])
def missing_file(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    B.raises(B.call(sp.load, B.no_file()), "a missing file is reported", FileNotFoundError)
    for f in FIELDS:
        B.ensure(getattr(sp, f) is None, "still unset: " + f)


@contract("P22", funcs=[S + "measurements_from_reference", "mud.util.add_noise"])
def synthetic_measurements(B):
    sp = B.run("construct", B.mud("base").SpatioTemporalProblem)
    s, t = B.dim("s", num=(1, 3)), B.dim("t", num=(1, 3))
    sp.sensors, sp.times = B.array("sensors", s, 2), B.array("times", t)
    z, z0 = B.array("true", s * t), B.array("before", s * t)
    sd, sd0 = B.real("noise", pos=True), B.real("noise before", pos=True)
    a, b = B.choice("true values", ["set before", "given", "set before and given", "missing"]), B.choice("noise", ["set before", "given", "set before and given", "missing"])
    kw = {}
    if "before" in a:
        put(B, sp, "true_vals", z0 if "given" in a else z)
    if "before" in b:
        sp.std_dev = sd0 if "given" in b else sd
    if "given" in a:
        kw["ref"] = z.reshape(-1, 1) if B.choice("form", ["flat", "column"]) == "column" else z
    if "given" in b:
        kw["std_dev"] = sd
    if B.choice("measurements", ["unset", "set before"]) != "unset":
        put(B, sp, "measurements", B.array("meas", s * t))
    old = sp.measurements
    seed = B.choice("seed", [None, 0, 3])
    if seed is not None:
        kw["seed"] = seed
    B.seed(1)
    if "missing" in (a, b):
        B.raises(B.call(sp.measurements_from_reference, **kw), "true values and noise level are needed", AttributeError)
        B.ensure((sp.measurements is None) == (old is None), "measurements unchanged")
        return
    B.run("measurements_from_reference", sp.measurements_from_reference, **kw)
    B.seed(1 if seed is None else seed)
    e = B.rng_draw(s * t)
    B.eq(sp.measurements, (z + e * sd).reshape(-1, 1), "true values plus seeded noise of the recorded level")
    B.eq(sp.true_vals, z.reshape(-1, 1), "true values")
    B.eq(sp.std_dev, sd, "noise level is recorded")
    B.eq(sp.sensors.shape[0], s, "sensors unchanged")


@contract("P22", funcs=["mud.funs.data_prob", S + "load", S + "mud_problem"], weight=2)
def one_call_solve(B):
    np = B.np
    conf = B.choice("settings", ["least", "domain", "sampling", "all"])
    E = Entries(B)
    B.assume(2 <= E.n)                      # the kernel estimate of the predicted density needs two samples
    funs, base = B.mud("funs"), B.mud("base")
    v = {f: E.v[f][0] for f in ALL}
    kw = {"measurements": v["measurements"], "std_dev": v["std_dev"], "times": v["times"], "sensors": v["sensors"]}
    if conf in ("domain", "all"):
        kw["domain"] = v["domain"]
    if conf in ("sampling", "all"):
        kw["sample_dist"] = "n"
    if conf == "all":
        kw["qoi_true"] = v["true_vals"]
        kw["lam_ref"] = v["lam_ref"]
    method = B.choice("method", ["default", "wme", "pca", "svd"])
    if method != "default":
        kw["method"] = method
    init = B.choice("initial", ["default", "given"])
    if init == "given":
        kw["init_dist"] = B.dist("g", pos=True)
    N = E.s * E.t
    if method in ("pca", "svd"):
        B.assume(B.land(2 <= E.n, 2 <= N))
    elif not B.symbolic:
        B.assume(E.n >= 3)
    res = (v["measurements"] - v["data"]) / v["std_dev"]
    if method in ("pca", "svd"):
        std = B.lib("sklearn.preprocessing").StandardScaler().fit_transform(res)
        B.assume_separated(std, 2)
        vec = B.lib("sklearn.decomposition").PCA(n_components=2).fit(std).components_ if method == "pca" else np.linalg.svd(std)[2][0:2, :]
    o = B.call(funs.data_prob, v["lam"], v["data"], **kw)
    if not B.symbolic and not o.ok and init == "default":
        B.assume(False)                 # the kernel estimate or the uniform initial density may degenerate
    D = B.get(o, "data_prob")
    B.eq(D.X, v["lam"], "the samples given")
    if "domain" in kw:
        B.eq(D.domain, v["domain"], "the domain given")
    if method in ("pca", "svd"):
        if not B.symbolic:
            vec = np.array([c * (1 if abs(D.y[:, k] - res @ c).max() <= abs(D.y[:, k] + res @ c).max() else -1) for k, c in enumerate(vec)])
        y = res @ vec.T
    else:
        y = (np.sum(res, axis=1) / np.sqrt(N)).reshape(-1, 1)
    B.eq(D.y, y, "predictions are the learned map of the scaled residuals")
    ref = base.DensityProblem(v["lam"], y, D.domain)
    ref.set_initial(kw["init_dist"] if init == "given" else B.frozen("uniform", 0, 1))
    ref.set_observed(B.frozen("norm", 0, 1))
    ref.fit()
    B.ensure(D._up is not None, "the problem is solved")
    B.eq(D._in, ref._in, "initial density")
    B.eq(D._ob, ref._ob, "observed density is standard normal")
    B.eq(D._up, ref._up, "updated density")
