# props: P01 P02 P03 P04 P05 P06 P08
"""Density and Bayesian problems: fitted densities, estimates, weights, set-up."""
from pyvc.contract import contract, META

# P08 also: every contract of the other properties once more, after an earlier run of the same scenario with other arrays
# (these: on the real code only)
META["P08"] = {"rehearsed": ["one_call_solve", "any_epochs", "epochs_continue", "singular_vectors", "principal_components", "load_fields",
                             "any_calls", "set_reference", "any_plotted_chains", "time_series", "set_domain", "any_iterate"]}

DP = "mud.base.DensityProblem."
BP = "mud.base.BayesProblem."
INIT = DP + "__init__"
SETW = DP + "set_weights"
FIT = [DP + "set_initial", DP + "set_observed", DP + "set_predicted", DP + "fit"]


class Den:
    def __init__(self, B, p=None, d=None):
        self.B = B
        self.n = B.dim("n", lo=2, num=(6, 11))
        self.p = B.dim("p", num=(1, 2)) if p is None else p
        self.d = B.dim("d", num=(1, 2)) if d is None else d
        self.X, self.y = B.array("X", self.n, self.p), B.array("y", self.n, self.d)
        B.spread(self.y)
        self.w = None

    def weights(self, which=("none", "vector", "stack")):
        B = self.B
        c = B.choice("weights", which)
        if c == "none":
            self.w, self.wv = None, B.np.ones(self.n)
        elif c == "vector":
            self.w = B.array("w", self.n, pos=True)
            self.wv = self.w
        else:
            q = B.dim("q", num=(1, 3))
            self.w = B.array("W", q, self.n, pos=True)
            self.wv = B.table((self.n,), lambda k: B.prod(q, lambda i: B.el(self.w, i, k)))
        return self.w

    def dom(self):
        B = self.B
        lo, wd = B.array("dlo", self.p), B.array("dwd", self.p, pos=True)
        self.domain = B.np.column_stack([lo, lo + wd])
        return self.domain

    def make(self, **k):
        return self.B.run("construct", self.B.mud("base").DensityProblem, self.X, self.y, weights=self.w, **k)


def attr(B, o, name):
    if not hasattr(o, name):
        B.unsupported(f"attribute {name} is not there")
    return getattr(o, name)


def dens(B, dist, A, n, d, **kw):
    """product over the columns of the distribution's values"""
    v = dist.pdf(A, **kw)
    return B.table((n,), lambda k: B.prod(d, lambda j: B.el(v, k, j)))


def kde(B, P, wv, bw=None):
    k = B.stats.gaussian_kde(P.y.T, bw_method=bw, weights=wv)
    return k.pdf(P.y.T)


# ------------------------------------------------------------------ P01

@contract("P01", funcs=[INIT, SETW] + FIT, weight=2)
def updated_density(B):
    """up = in * weight * ob / pr, r = ob / pr, with user supplied distributions"""
    P = Den(B)
    P.weights()
    D = P.make()
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    pr = B.choice("predicted", ["distribution", "kernel estimate", "kernel estimate by default"])
    if pr == "distribution":
        B.run("set_predicted", D.set_predicted, fp)
        pv = dens(B, fp, P.y, P.n, P.d)
    else:
        if pr == "kernel estimate":
            B.run("set_predicted", D.set_predicted)
        pv = kde(B, P, P.wv)
    B.run("fit", D.fit)
    iv, ov = dens(B, fi, P.X, P.n, P.p), dens(B, fo, P.y, P.n, P.d)
    up, r = attr(B, D, "_up"), attr(B, D, "_r")
    B.eq(r, ov / pv, "ratio is observed / predicted")
    B.eq(up, iv * P.wv * ov / pv, "updated density is initial x weight x observed / predicted")


@contract("P01", funcs=[INIT, SETW] + FIT)
def updated_density_orders(B):
    """any order of setting the three distributions (the initial one before the predicted one)"""
    P = Den(B)
    P.weights(("none", "vector"))
    D = P.make()
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    order = B.choice("order", ["iop", "oip", "ipo"])
    for c in order:
        B.run("set", *{"i": (D.set_initial, fi), "o": (D.set_observed, fo), "p": (D.set_predicted, fp)}[c])
    B.run("fit", D.fit)
    iv, ov = dens(B, fi, P.X, P.n, P.p), dens(B, fo, P.y, P.n, P.d)
    pv = dens(B, fp, P.y, P.n, P.d)
    B.eq(attr(B, D, "_up"), iv * P.wv * ov / pv, "updated density does not depend on the order")


@contract("P01", funcs=[INIT] + FIT)
def scipy_distributions(B):
    """frozen scipy distributions with one location and scale per column"""
    P = Den(B)
    kind = B.choice("kind", ["norm", "uniform"])
    lo, sc = B.array("loc", P.p), B.array("scale", P.p, pos=True)
    lq, sq = B.array("locq", P.d), B.array("scaleq", P.d, pos=True)
    lr, sr = B.array("locr", P.d), B.array("scaler", P.d, pos=True)
    fi, fo, fp = B.frozen(kind, lo, sc), B.frozen("norm", lq, sq), B.frozen("norm", lr, sr)
    D = P.make()
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    B.run("set_predicted", D.set_predicted, fp)
    B.run("fit", D.fit)
    iv, ov = dens(B, fi, P.X, P.n, P.p), dens(B, fo, P.y, P.n, P.d)
    pv = dens(B, fp, P.y, P.n, P.d)
    B.assume(B.symbolic or pv.min() > 1e-100)
    B.eq(attr(B, D, "_up"), iv * ov / pv, "updated density with scipy distributions")


@contract("P01", funcs=FIT)
def predicted_options(B):
    """bandwidth, weights and pdf options reach the predicted density"""
    P = Den(B)
    P.weights(("vector",))
    w2 = B.array("w2", P.n, pos=True)
    D = P.make()
    o = B.choice("option", ["bw scott", "bw silverman", "bw number", "weights", "weights and bw", "fit bw", "pdf options", "joint density"])
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    wv = P.wv
    if o == "bw scott":
        B.run("set_predicted", D.set_predicted, bw_method="scott")
        pv = kde(B, P, wv, "scott")
    elif o == "bw silverman":
        B.run("set_predicted", D.set_predicted, None, "silverman")
        pv = kde(B, P, wv, "silverman")
    elif o == "bw number":
        B.run("set_predicted", D.set_predicted, bw_method=0.7)
        pv = kde(B, P, wv, 0.7)
    elif o == "weights":
        B.run("set_predicted", D.set_predicted, weights=w2)
        wv, pv = w2, kde(B, P, w2)
    elif o == "weights and bw":
        B.run("set_predicted", D.set_predicted, bw_method="silverman", weights=w2)
        wv, pv = w2, kde(B, P, w2, "silverman")
    elif o == "fit bw":
        B.run("fit", D.fit, bw_method="silverman")
        pv = kde(B, P, wv, "silverman")
    elif o == "pdf options":
        B.run("set_predicted", D.set_predicted, fp, loc=2.0, scale=3.0)
        pv = dens(B, fp, P.y, P.n, P.d, loc=2.0, scale=3.0)
    else:
        # a distribution over several observables whose pdf is one value per sample
        class Joint:
            def pdf(self, y):
                return dens(B, fp, y, P.n, P.d)
        B.run("set_predicted", D.set_predicted, Joint())
        pv = dens(B, fp, P.y, P.n, P.d)
    B.run("fit", D.fit)
    iv, ov = dens(B, fi, P.X, P.n, P.p), dens(B, fo, P.y, P.n, P.d)
    B.eq(attr(B, D, "_r"), ov / pv, "ratio with the requested predicted density")
    B.eq(attr(B, D, "_up"), iv * wv * ov / pv, "updated density with the requested predicted density")


# ------------------------------------------------------------------ P02

@contract("P02", funcs=[DP + "mud_point", DP + "estimate", DP + "fit"])
def mud_point_maximises(B):
    P = Den(B)
    P.weights(("none", "vector"))
    D = P.make()
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    if B.choice("predicted", ["distribution", "kernel estimate"]) == "distribution":
        B.run("set_predicted", D.set_predicted, fp)
        pv = dens(B, fp, P.y, P.n, P.d)
    else:
        pv = kde(B, P, P.wv)
    q = B.choice("query", ["mud_point", "estimate", "mud_point after fit", "twice"])
    if q == "mud_point after fit":
        B.run("fit", D.fit)
    if q == "twice":
        B.run("mud_point", D.mud_point)
    m = B.run(q, D.estimate if q == "estimate" else D.mud_point)
    up = dens(B, fi, P.X, P.n, P.p) * P.wv * dens(B, fo, P.y, P.n, P.d) / pv
    k = B.np.argmax(up)
    B.shape_is(m, (P.p,), "one value per parameter")
    B.eq(m, P.X[k, :], "mud point is the sample with the first largest updated density")
    B.ensure(B.forall(P.n, lambda l: B.el(up, l) <= B.el(up, k)), "no sample has a larger updated density")
    B.ensure(B.forall(P.n, lambda l: B.implies(l < k, B.el(up, l) < B.el(up, k))), "of equals the first is reported")


@contract("P02", funcs=[DP + "mud_point", DP + "fit"])
def mud_point_ties(B):
    """equal densities everywhere: the first sample"""
    P = Den(B)
    D = P.make()
    c = B.real("c", pos=True)

    class Flat:
        def __init__(self, k):
            self.k = k

        def pdf(self, x):
            return B.table((P.n, self.k), lambda i, j: c)
    B.run("set_initial", D.set_initial, Flat(P.p))
    B.run("set_observed", D.set_observed, Flat(P.d))
    B.run("set_predicted", D.set_predicted, Flat(P.d))
    m = B.run("mud_point", D.mud_point)
    B.eq(m, P.X[0, :], "ties go to the first sample")


# ------------------------------------------------------------------ P03

@contract("P03", funcs=[DP + "expected_ratio", DP + "fit", SETW])
def expected_ratio(B):
    P = Den(B)
    P.weights()
    D = P.make()
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    if B.choice("predicted", ["distribution", "kernel estimate"]) == "distribution":
        B.run("set_predicted", D.set_predicted, fp)
        pv = dens(B, fp, P.y, P.n, P.d)
    else:
        pv = kde(B, P, P.wv)
    q = B.choice("before", ["nothing", "fit", "mud_point"])
    if q != "nothing":
        B.run(q, getattr(D, q))
    e = B.run("expected_ratio", D.expected_ratio)
    r = dens(B, fo, P.y, P.n, P.d) / pv
    B.eq(e, B.sum(P.n, lambda k: B.el(P.wv, k) * B.el(r, k)) / B.sum(P.n, lambda k: B.el(P.wv, k)),
         "expected ratio is the weighted average of observed / predicted")
    if P.w is None:
        B.eq(e, B.sum(P.n, lambda k: B.el(r, k)) / P.n, "plain mean without weights")


@contract("P03", funcs=[DP + "expected_ratio", SETW])
def expected_ratio_new_settings(B):
    """weights or distributions changed after a fit are the ones used"""
    P = Den(B)
    P.weights(("none", "vector"))
    D = P.make()
    fi, fo, fp = B.dist("in"), B.dist("ob"), B.dist("pr")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    B.run("set_predicted", D.set_predicted, fp)
    B.run("expected_ratio", D.expected_ratio)
    wv = P.wv
    ch = B.choice("changed", ["weights", "observed", "predicted", "initial"])
    if ch == "weights":
        wv = B.array("w2", P.n, pos=True)
        B.run("set_weights", D.set_weights, wv)
        B.run("set_predicted", D.set_predicted, fp)
    elif ch == "observed":
        fo = B.dist("ob2")
        B.run("set_observed", D.set_observed, fo)
    elif ch == "predicted":
        fp = B.dist("pr2")
        B.run("set_predicted", D.set_predicted, fp)
    else:
        B.run("set_initial", D.set_initial, B.dist("in2"))
        B.run("set_predicted", D.set_predicted, fp)
    e = B.run("expected_ratio", D.expected_ratio)
    r = dens(B, fo, P.y, P.n, P.d) / dens(B, fp, P.y, P.n, P.d)
    B.eq(e, B.sum(P.n, lambda k: B.el(wv, k) * B.el(r, k)) / B.sum(P.n, lambda k: B.el(wv, k)),
         "expected ratio of the settings in force")


# ------------------------------------------------------------------ P04

def norm2(B, n, v):
    return B.sqrt(B.sum(n, lambda k: B.el(v, k) * B.el(v, k)))


@contract("P04", funcs=[INIT, SETW])
def combined_weights(B):
    P = Den(B)
    P.weights(("none", "vector", "stack"))
    norm = B.choice("normalize", [False, True])
    where = B.choice("where", ["constructor", "set_weights", "set_predicted"])
    w = P.w
    if where == "constructor":
        D = B.run("construct", B.mud("base").DensityProblem, P.X, P.y, weights=w, normalize=norm)
    else:
        D = B.run("construct", B.mud("base").DensityProblem, P.X, P.y, weights=B.array("w0", P.n, pos=True))
        if where == "set_weights":
            B.run("set_weights", D.set_weights, w, normalize=norm)
        else:
            B.assume(not norm)
            B.assume(w is not None)
            B.run("set_initial", D.set_initial, B.dist("in"))
            B.run("set_predicted", D.set_predicted, B.dist("pr"), weights=w)
    exp = P.wv / norm2(B, P.n, P.wv) if norm and w is not None else P.wv
    B.eq(attr(B, D, "_weights"), exp, "weight per sample")
    # observable effect: the average
    B.run("set_initial", D.set_initial, B.dist("in"))
    B.run("set_observed", D.set_observed, B.dist("ob"))
    fp = B.dist("pr")
    B.run("set_predicted", D.set_predicted, fp)
    r = dens(B, B.dist("ob"), P.y, P.n, P.d) / dens(B, fp, P.y, P.n, P.d) if B.symbolic else None
    e = B.run("expected_ratio", D.expected_ratio)
    if B.symbolic:
        B.eq(e, B.sum(P.n, lambda k: B.el(P.wv, k) * B.el(r, k)) / B.sum(P.n, lambda k: B.el(P.wv, k)),
             "average with the combined weights")


@contract("P04", funcs=[INIT, SETW])
def signed_weights(B):
    """combining and normalising do not depend on the signs"""
    P = Den(B)
    q = B.dim("q", num=(1, 3))
    W = B.array("W", q, P.n) if B.choice("weights", ["stack", "vector"]) == "stack" else B.array("w", P.n)
    norm = B.choice("normalize", [False, True])
    if B.choice("where", ["constructor", "set_weights"]) == "constructor":
        D = B.run("construct", B.mud("base").DensityProblem, P.X, P.y, weights=W, normalize=norm)
    else:
        D = B.run("construct", B.mud("base").DensityProblem, P.X, P.y)
        B.run("set_weights", D.set_weights, W, normalize=norm)
    wv = W if W.ndim == 1 else B.table((P.n,), lambda k: B.prod(q, lambda i: B.el(W, i, k)))
    if norm:
        B.assume(norm2(B, P.n, wv) > 0)
    B.eq(attr(B, D, "_weights"), wv / norm2(B, P.n, wv) if norm else wv, "weight per sample")


@contract("P04", funcs=[SETW, DP + "fit"])
def weights_take_effect(B):
    """new weights discard what depends on them; the next fit uses them"""
    P = Den(B)
    P.weights(("none", "vector"))
    D = P.make()
    fi, fo = B.dist("in"), B.dist("ob")
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    B.run("fit", D.fit)
    c = B.choice("new weights", ["vector", "none"])
    w2 = B.array("w2", P.n, pos=True) if c == "vector" else None
    wv = w2 if w2 is not None else B.np.ones(P.n)
    if B.choice("through", ["set_weights", "set_predicted"]) == "set_weights":
        B.run("set_weights", D.set_weights, w2)
    else:
        B.assume(w2 is not None)
        B.run("set_predicted", D.set_predicted, weights=w2)
    m = B.run("mud_point", D.mud_point)
    up = dens(B, fi, P.X, P.n, P.p) * wv * dens(B, fo, P.y, P.n, P.d) / kde(B, P, wv)
    B.eq(m, P.X[B.np.argmax(up), :], "next estimate uses the new weights")
    B.eq(attr(B, D, "_up"), up, "next updated density uses the new weights")


@contract("P04", funcs=[INIT, SETW])
def weights_mismatch(B):
    P = Den(B)
    k = B.dim("k", num=(1, 14))
    B.assume(k != P.n)
    c = B.choice("form", ["vector", "stack"])
    w = B.array("w", k, pos=True) if c == "vector" else B.array("W", B.dim("q"), k, pos=True)
    where = B.choice("where", ["constructor", "set_weights", "set_predicted"])
    if where == "constructor":
        o = B.call(B.mud("base").DensityProblem, P.X, P.y, weights=w)
    else:
        D = P.make()
        o = B.call(D.set_weights, w) if where == "set_weights" else B.call(D.set_predicted, weights=w)
    B.raises(o, "weights of the wrong length are rejected")


# ------------------------------------------------------------------ P05

@contract("P05", funcs=[INIT, "mud.util.set_shape", DP + "n_samples", DP + "n_params", DP + "n_features"])
def one_dimensional_inputs(B):
    """flat samples / predictions are repeated values of one quantity"""
    n = B.dim("n", lo=2, num=(3, 8))
    which = B.choice("flat", ["both", "samples", "predictions"])
    X = B.array("x", n) if which != "predictions" else B.array("x", n, B.dim("p", num=(1, 3)))
    y = B.array("y", n) if which != "samples" else B.array("y", n, B.dim("d", num=(1, 3)))
    D = B.run("construct", B.mud("base").DensityProblem, X, y)
    B.eq(D.X, X if which == "predictions" else X.reshape(-1, 1), "samples are rows")
    B.eq(D.y, y if which == "samples" else y.reshape(-1, 1), "predictions are rows")
    B.eq(D.n_samples, n, "number of samples")
    B.eq(D.n_params, 1 if which != "predictions" else X.shape[1], "number of parameters")
    B.eq(D.n_features, 1 if which != "samples" else y.shape[1], "number of observables")


@contract("P05", funcs=[INIT, BP + "__init__", "mud.util.fit_domain"])
def default_domain(B):
    """bounding box of the samples padded by a tenth of the range on each side"""
    P = Den(B)
    cls = B.choice("problem", ["DensityProblem", "BayesProblem"])
    D = B.run("construct", getattr(B.mud("base"), cls), P.X, P.y)
    mn, mx = B.np.min(P.X, axis=0), B.np.max(P.X, axis=0)
    B.shape_is(D.domain, (P.p, 2), "one row per parameter")
    B.eq(D.domain[:, 0], mn - 0.1 * (mx - mn), "lower bounds")
    B.eq(D.domain[:, 1], mx + 0.1 * (mx - mn), "upper bounds")


@contract("P05", funcs=["mud.util.fit_domain"])
def fit_domain_contract(B):
    n, p = B.dim("n", lo=1, num=(1, 6)), B.dim("p", num=(1, 3))
    f = B.mud("util").fit_domain
    c = B.choice("given", ["samples", "samples, padding", "bounds", "bounds, padding", "nothing"])
    if c == "nothing":
        B.raises(B.call(f), "nothing to fit is rejected", ValueError)
        return
    r = B.real("r", nonneg=True) if "padding" in c else 0.1
    kw = {"pad_ratio": r} if "padding" in c else {}
    if c.startswith("samples"):
        X = B.array("X", n, p)
        D = B.run("fit_domain", f, X, **kw)
        mn, mx = B.np.min(X, axis=0), B.np.max(X, axis=0)
    else:
        bd = B.array("bd", p, 2, real=True)
        fz = B.freeze(bd)
        D = B.run("fit_domain", f, min_max_bounds=bd, **kw)
        mn, mx = bd[:, 0], bd[:, 1]
        B.unchanged(fz, "bounds are not modified")
    B.eq(D, B.np.column_stack([mn - r * (mx - mn), mx + r * (mx - mn)]), "padded bounds")


@contract("P05", funcs=["mud.util.fit_domain", INIT, BP + "__init__"])
def domain_of_integer_samples(B):
    """the padding is exact although the samples are integers"""
    n, p = B.dim("n", lo=1, num=(1, 6)), B.dim("p", num=(1, 3))
    X = B.int_array("X", n, p)
    c = B.choice("by", ["fit_domain", "fit_domain, half", "DensityProblem", "BayesProblem"])
    r = 0.1
    if c.startswith("fit"):
        kw = {}
        if "half" in c:
            r = 0.5
            kw = {"pad_ratio": 0.5}
        D = B.run("fit_domain", B.mud("util").fit_domain, X, **kw)
    else:
        D = B.run("construct", getattr(B.mud("base"), c), X, B.array("y", n, 1)).domain
    mn, mx = B.np.min(X, axis=0), B.np.max(X, axis=0)
    B.shape_is(D, (p, 2), "one row per parameter")
    j = B.index("j", p)
    B.eq(B.el(D, j, 0), B.el(mn, j) - r * (B.el(mx, j) - B.el(mn, j)), "lower bounds")
    B.eq(B.el(D, j, 1), B.el(mx, j) + r * (B.el(mx, j) - B.el(mn, j)), "upper bounds")


@contract("P05", funcs=[INIT, BP + "__init__"])
def given_domain(B):
    P = Den(B)
    cls = B.choice("problem", ["DensityProblem", "BayesProblem"])
    dom = P.dom()
    B.assume_valid(True)
    D = B.run("construct", getattr(B.mud("base"), cls), P.X, P.y, domain=dom)
    B.eq(D.domain, dom, "the given domain is used")


@contract("P05", funcs=[INIT, BP + "__init__"])
def flat_domain(B):
    """a flat domain is the range of a single parameter"""
    P = Den(B, p=1)
    lo, wd = B.real("lo"), B.real("wd", pos=True)
    cls = B.choice("problem", ["DensityProblem", "BayesProblem"])
    D = B.run("construct", getattr(B.mud("base"), cls), P.X, P.y, domain=[lo, lo + wd])
    B.eq(D.domain, B.np.array([[lo, lo + wd]]), "one row")


@contract("P05", funcs=[INIT, BP + "__init__"])
def domain_mismatch(B):
    P = Den(B)
    cls = B.choice("problem", ["DensityProblem", "BayesProblem"])
    if B.choice("given as", ["rows", "one flat row"]) == "rows":
        k = B.dim("k")
        B.assume(k != P.p)
        dom = B.array("dom", k, 2)
    else:
        B.assume(P.p != 1)
        dom = B.array("dom", P.p, 2).ravel()
    o = B.call(getattr(B.mud("base"), cls), P.X, P.y, domain=dom)
    B.raises(o, "a domain of the wrong dimension is rejected")


@contract("P05", funcs=[DP + "set_initial", DP + "set_observed", DP + "fit", BP + "set_prior"])
def default_distributions(B):
    """uniform initial / prior over the domain, standard normal observed"""
    P = Den(B)
    dom = P.dom()
    how = B.choice("how", ["explicit", "by fit"])
    if B.choice("problem", ["density", "bayes"]) == "density":
        D = P.make(domain=dom)
        fp = B.dist("pr")
        if how == "explicit":
            B.run("set_initial", D.set_initial)
            B.run("set_observed", D.set_observed)
        B.run("set_predicted", D.set_predicted, fp)
        B.run("fit", D.fit)
        pin = dens(B, B.frozen("uniform", dom[:, 0], dom[:, 1] - dom[:, 0]), P.X, P.n, P.p)
        pob = dens(B, B.frozen("norm", 0, 1), P.y, P.n, P.d)
        # setting the initial density, as fit does here, discards the predicted one
        pr = dens(B, fp, P.y, P.n, P.d) if how == "explicit" else kde(B, P, None)
        B.eq(attr(B, D, "_up"), pin * pob / pr, "uniform initial over the domain, standard normal observed")
    else:
        D = B.run("construct", B.mud("base").BayesProblem, P.X, P.y, domain=dom)
        fl = B.dist("ll")
        B.run("set_likelihood", D.set_likelihood, fl)
        if how == "explicit":
            B.run("set_prior", D.set_prior)
        o = B.call(D.fit)
        pin = dens(B, B.frozen("uniform", dom[:, 0], dom[:, 1] - dom[:, 0]), P.X, P.n, P.p)
        ps = pin * dens(B, fl, P.y, P.n, P.d)
        z = B.sum(P.n, lambda k: B.el(ps, k)) == 0
        if B.is_true(z):
            B.raises(o, "vanishing posterior is reported", ValueError)
        else:
            B.get(o, "fit")
            B.eq(attr(B, D, "_ps"), ps, "uniform prior over the domain")


@contract("P05", funcs=[DP + "set_initial", INIT])
def default_initial_covers_samples(B):
    """without a domain the default initial density is positive at every sample"""
    P = Den(B)
    D = P.make()
    B.run("set_initial", D.set_initial)
    dom = D.domain
    k, j = B.index("k", P.n), B.index("j", P.p)
    B.ensure(B.land(B.el(dom, j, 0) <= B.el(P.X, k, j), B.el(P.X, k, j) <= B.el(dom, j, 1)), "every sample lies in the default domain")


# ------------------------------------------------------------------ P06

def bayes(B, P, **k):
    return B.run("construct", B.mud("base").BayesProblem, P.X, P.y, **k)


@contract("P06", funcs=[BP + "set_prior", BP + "set_likelihood", BP + "fit", BP + "map_point", BP + "estimate", BP + "n_samples", BP + "n_params", BP + "n_features"])
def posterior(B):
    P = Den(B)
    D = bayes(B, P)
    log = B.choice("log", [False, True, "default"])
    kw = {} if log == "default" else {"log": log}
    log = log is True
    fp, fl = B.dist("prior"), B.dist("ll")
    order = B.choice("order", ["prior first", "likelihood first"])
    if order == "prior first":
        B.run("set_prior", D.set_prior, fp)
    B.run("set_likelihood", D.set_likelihood, fl, **kw)
    if order != "prior first":
        B.run("set_prior", D.set_prior, fp)
    pv = dens(B, fp, P.X, P.n, P.p)
    if log:
        lp = fl.logpdf(P.y)
        lv = B.table((P.n,), lambda k: B.sum(P.d, lambda j: B.el(lp, k, j)))
        ps = B.np.log(pv) + lv
        v = fl.pdf(P.y)
        zero = B.forall(P.n, lambda k: B.lor(B.el(pv, k) == 0, B.exists(P.d, lambda j: B.el(v, k, j) == 0)))
    else:
        ps = pv * dens(B, fl, P.y, P.n, P.d)
        zero = B.sum(P.n, lambda k: B.el(ps, k)) == 0
    q = B.choice("query", ["fit", "map_point", "estimate"])
    o = B.call(getattr(D, q))
    if B.is_true(zero):
        B.raises(o, "a posterior that vanishes everywhere is reported", ValueError)
        return
    m = B.get(o, q)
    B.eq(attr(B, D, "_ps"), ps, "posterior is prior x likelihood")
    if q != "fit":
        B.shape_is(m, (P.p,), "one value per parameter")
        B.eq(m, P.X[B.np.argmax(ps), :], "map point is the sample with the first largest posterior")


@contract("P06", funcs=[BP + "set_likelihood", BP + "fit", BP + "map_point"])
def normal_likelihood(B):
    """scipy normal likelihood around data, uniform prior given by the domain"""
    P = Den(B)
    dom = P.dom()
    mn, mx = B.np.min(P.X, axis=0), B.np.max(P.X, axis=0)
    D = bayes(B, P, domain=dom)
    data, sd = B.array("data", P.d), B.real("sd", pos=True)
    if not B.symbolic:
        data, sd = data * 0.2, sd + 0.4
    log = B.choice("log", [False, True])
    fl = B.frozen("norm", data, sd)
    B.run("set_likelihood", D.set_likelihood, fl, log=log)
    pv = dens(B, B.frozen("uniform", dom[:, 0], dom[:, 1] - dom[:, 0]), P.X, P.n, P.p)
    B.assume(B.exists(P.n, lambda k: B.el(pv, k) > 0))
    if log:
        lv = fl.logpdf(P.y)
        ps = B.np.log(pv) + B.table((P.n,), lambda k: B.sum(P.d, lambda j: B.el(lv, k, j)))
    else:
        ps = pv * dens(B, fl, P.y, P.n, P.d)
    o = B.call(D.map_point)
    if not log:
        # the sum over the samples vanishes only if every term does
        if B.is_true(B.sum(P.n, lambda k: B.el(ps, k)) == 0):
            return
    m = B.get(o, "map_point")
    B.eq(m, P.X[B.np.argmax(ps), :], "map point")


@contract("P06", funcs=[BP + "fit"], symbolic=False, bounded="random priors that vanish on random subsets of up to 11 samples")
def vanishing_posterior(B):
    """error exactly when the posterior vanishes at every sample"""
    P = Den(B)
    np = B.np
    z = B.bool_array("z", P.n)
    if B.choice("all zero", [False, True]):
        z = np.ones(P.n, dtype=bool)

    class Pr:
        def pdf(self, x):
            return np.where(z[:, None], 0.0, 1.0) * np.ones((P.n, P.p))
    log = B.choice("log", [False, True])
    D = bayes(B, P)
    B.run("set_prior", D.set_prior, Pr())
    fl = B.dist("ll")
    B.run("set_likelihood", D.set_likelihood, fl, log=log)
    o = B.call(D.map_point)
    if z.all():
        B.raises(o, "a posterior that vanishes everywhere is reported", ValueError)
    else:
        m = B.get(o, "map_point")
        B.ensure(any((m == P.X[k]).all() for k in range(P.n) if not z[k]), "map point has positive posterior")


# ------------------------------------------------------------------ P08

@contract("P08", funcs=[INIT, BP + "__init__", SETW])
def own_copies(B):
    """the problem keeps copies: what the caller does later does not reach it"""
    P = Den(B)
    dom = P.dom()
    w = B.array("w", P.n, pos=True)
    P.w = w
    cls = B.choice("problem", ["DensityProblem", "BayesProblem"])
    fz = B.freeze(P.X, P.y, dom, w)
    if cls == "DensityProblem":
        D = P.make(domain=dom)
    else:
        D = bayes(B, P, domain=dom)
    B.no_alias(D.X, P.X, "samples are copied")
    B.no_alias(D.y, P.y, "predictions are copied")
    B.no_alias(D.domain, dom, "domain is copied")
    if cls == "DensityProblem":
        B.no_alias(attr(B, D, "_weights"), w, "weights are copied")
    B.unchanged(fz, "arguments are not modified")


@contract("P08", funcs=[INIT, SETW] + FIT + [DP + "mud_point", DP + "expected_ratio"])
def density_purity(B):
    P = Den(B)
    P.weights()
    norm = B.choice("normalize", [False, True])
    dom = P.dom()
    fz = B.freeze(P.X, P.y, dom, *([P.w] if P.w is not None else []))
    D = P.make(domain=dom, normalize=norm)
    B.run("set_initial", D.set_initial, B.dist("in"))
    B.run("set_observed", D.set_observed, B.dist("ob"))
    B.run("set_predicted", D.set_predicted, B.dist("pr"))
    w2 = B.array("w2", B.dim("q2", num=(1, 2)), P.n, pos=True)
    fz2 = B.freeze(w2)
    e = B.run("expected_ratio", D.expected_ratio)
    m = B.run("mud_point", D.mud_point)
    B.eq(B.run("expected_ratio again", D.expected_ratio), e, "asking again gives the same ratio")
    B.eq(B.run("mud_point again", D.mud_point), m, "asking again gives the same estimate")
    B.run("set_weights", D.set_weights, w2, normalize=norm)
    B.unchanged(fz, "arguments are not modified")
    B.unchanged(fz2, "weights are not modified")


@contract("P08", funcs=[BP + "__init__", BP + "set_prior", BP + "set_likelihood", BP + "map_point"])
def bayes_purity(B):
    P = Den(B)
    dom = P.dom()
    fz = B.freeze(P.X, P.y, dom)
    D = bayes(B, P, domain=dom)
    B.run("set_prior", D.set_prior, B.dist("prior"))
    B.run("set_likelihood", D.set_likelihood, B.dist("ll"), log=B.choice("log", [False, True]))
    o = B.call(D.map_point)
    if o.ok:
        B.eq(B.run("map_point again", D.map_point), o.value, "asking again gives the same estimate")
    B.unchanged(fz, "arguments are not modified")
