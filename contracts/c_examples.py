# props: P25
"""Synthetic example problems, their drivers and the command line: every setting reaches the computation it names."""
import contextlib
import types

from pyvc.contract import contract, META
from contracts.c_spatio import S, Entries

EX = "mud.examples."


@contextlib.contextmanager
def standing_in(mod, **stand_ins):
    """functions of the module are replaced by the recording stand-ins while the command runs"""
    old = {n: getattr(mod, n) for n in stand_ins}
    for n, v in stand_ins.items():
        setattr(mod, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(mod, n, v)


class Stand:
    """keeps the arguments of its calls, by name"""

    def __init__(self, names=(), result=None):
        self.names, self.result, self.calls = names, result, []

    def __call__(self, *a, **k):
        got = dict(zip(self.names, a))
        got.update(k)
        self.calls.append(got)
        return self.result() if callable(self.result) else self.result


def same(B, got, want, label):
    """the very value (numbers may come as any number type, lists as any sequence)"""
    if isinstance(want, (list, tuple)):
        B.ensure(isinstance(got, (list, tuple)) and len(got) == len(want), label + ": number of entries")
        for g, w in zip(got, want):
            same(B, g, w, label)
    elif want is None or isinstance(want, (str, bool)):
        B.ensure(got == want if want is not None else got is None, label)
    else:
        B.eq(got, want, label)


def passed(B, stand, want, label, calls=1):
    B.ensure(len(stand.calls) == calls, label + ": called")
    for got in stand.calls[:1]:
        for k, v in want.items():
            B.ensure(k in got, f"{label} is given {k}")
            if k in got:
                same(B, got[k], v, f"{label} is given the {k} asked for")


# ------------------------------------------------------------------ synthetic data

def uniform_draw(B, lo, hi, shape):
    return B.frozen("uniform", lo, hi - lo).rvs(size=shape)


@contract("P25", funcs=[EX + "simple.polynomial_1D_data"])
def polynomial_data(B):
    """samples of the asked for distribution and domain, their powers, normal data of the asked for mean and deviation"""
    f = B.mud("examples.simple").polynomial_1D_data
    n = B.dim("n", num=(1, 6))
    mu, sigma = B.real("mu"), B.real("sigma", pos=True)
    p = B.choice("power", [1, 2, 5])
    kw = {"p": p, "num_samples": n, "mu": mu, "sigma": sigma}
    N = 1 if B.choice("data", ["one", "several"]) == "one" else B.dim("N", num=(2, 6))
    if not isinstance(N, int) or N > 1:
        B.assume(N >= 2)
    kw["N"] = N
    how = B.choice("samples", ["initial distribution", "domain"])
    if how == "domain":
        lo, wd = B.real("lo"), B.real("wd", pos=True)
        kw["domain"] = [[lo, lo + wd]]
        init = B.frozen("uniform", lo, wd)
    else:
        init = B.frozen(*B.choice("initial", [("norm", 2, 3), ("uniform", 0, 1)]))
        kw["init_dist"] = init
    B.seed(3)
    lam, q, data = B.run("polynomial_1D_data", f, **kw)
    B.seed(3)
    x = init.rvs(size=(n, 1))
    B.eq(lam, x, "samples of the initial distribution on the domain")
    B.eq(q, lam**p, "predictions are the powers of the samples")
    if isinstance(N, int) and N == 1:
        B.eq(data, B.np.array([mu]), "a single datum is the true value")
    else:
        B.eq(data, B.frozen("norm", mu, sigma).rvs(size=N), "data are normal with the deviation asked for")


class Identity:
    """a one-parameter identity problem and the data it is built on"""

    def __init__(self, B, name, mean, dev):
        self.B = B
        self.n, self.N = B.dim("n", num=(3, 8)), B.dim("N", num=(2, 5))
        B.assume(B.land(self.n >= 2, self.N >= 2))
        self.mu, self.sigma = B.real("mu"), B.real("sigma", pos=True)
        self.f = getattr(B.mud("examples.simple"), name)
        self.kw = {"num_samples": self.n, "num_obs": self.N, mean: self.mu, dev: self.sigma}

    def data(self, init):
        self.B.seed(3)
        return self.B.mud("examples.simple").polynomial_1D_data(p=1, num_samples=self.n, N=self.N, init_dist=init, mu=self.mu, sigma=self.sigma)


@contract("P25", funcs=[EX + "simple.identity_1D_density_prob"])
def identity_density(B):
    P = Identity(B, "identity_1D_density_prob", "mu", "sigma")
    kw = P.kw
    dom = [0, 1]
    if B.choice("domain", ["default", "given"]) == "given":
        lo, wd = B.real("lo"), B.real("wd", pos=True)
        dom = [lo, lo + wd]
        kw["domain"] = dom
    init = B.frozen("uniform", dom[0], dom[1] - dom[0])
    if B.choice("initial", ["default", "given"]) == "given":
        init = B.frozen("norm", 0.5, 1)
        kw["init_dist"] = init
    w = None
    if B.choice("weights", ["default", "given"]) == "given":
        w = B.array("w", P.n, pos=True)
        kw["weights"] = w
        kw["normalize"] = B.choice("normalize", [False, True])
    analytical = B.choice("predicted", ["default", "analytical", "estimated"])
    if analytical != "default":
        kw["analytical_pred"] = analytical == "analytical"
    B.seed(3)
    D = B.run("identity_1D_density_prob", P.f, **kw)
    lam, q, data = P.data(init)
    R = B.mud("base").DensityProblem(lam, q, dom, weights=w, normalize=kw.get("normalize", False))
    R.set_initial(init)
    R.set_observed(B.frozen("norm", B.np.mean(data), P.sigma))
    B.eq(D.X, lam, "samples of the initial distribution")
    B.eq(D.y, q, "predictions are the samples")
    B.eq(D.domain, R.domain, "the domain asked for")
    B.eq(D._weights, R._weights, "the weights asked for")
    B.eq(D._in, R._in, "initial density asked for")
    B.eq(D._ob, R._ob, "observed density around the mean of the data with the deviation asked for")
    if analytical == "estimated":
        B.ensure(D._pr is None, "predicted density is left to be estimated")
    else:
        B.eq(D._pr, init.pdf(lam).reshape(-1), "predicted density is the initial density")


@contract("P25", funcs=[EX + "simple.identity_1D_bayes_prob"])
def identity_bayes(B):
    P = Identity(B, "identity_1D_bayes_prob", "mu", "sigma")
    kw, init = P.kw, B.frozen("uniform", 0, 1)
    if B.choice("initial", ["default", "given"]) == "given":
        init = B.frozen("norm", 0.5, 1)
        kw["init_dist"] = init
    if B.choice("domain", ["default", "given"]) == "given":
        lo, wd = B.real("lo"), B.real("wd", pos=True)
        kw["domain"] = [lo, lo + wd]
    B.seed(3)
    b = B.run("identity_1D_bayes_prob", P.f, **kw)
    lam, q, data = P.data(init)
    R = B.mud("base").BayesProblem(lam, q, domain=kw.get("domain"))
    R.set_likelihood(B.frozen("norm", data, P.sigma))
    B.eq(b.X, lam, "samples of the initial distribution")
    B.eq(b.y, q, "predictions are the samples")
    B.eq(b.domain, R.domain, "the domain asked for")
    B.eq(b._ll, R._ll, "normal likelihood around the data with the deviation asked for")


@contract("P25", funcs=[EX + "simple.identity_1D_temporal_prob"])
def identity_temporal(B):
    P = Identity(B, "identity_1D_temporal_prob", "y_true", "noise")
    P.kw["domain"] = [[0, 1]]
    D = B.run("identity_1D_temporal_prob", P.f, **P.kw)
    B.ensure(D._ob is not None, "the observed density is set")


@contract("P25", funcs=[EX + "exp_decay.exp_decay_1D"], bounded="4 or 6 times (all numbers of samples and values)")
def exp_decay_one(B):
    np = B.np
    n, u0, true, sd = B.dim("n", num=(1, 6)), B.real("u0"), B.real("true"), B.real("sd", pos=True)
    lo, wd = B.real("lo"), B.real("wd", pos=True)
    t0, t1, fr = B.choice("times", [(0, 4, 1), (1, 4, 2)])
    kw = {"u_0": u0, "time_range": [0, t1], "num_samples": n, "lambda_true": true, "t_start": t0, "sampling_freq": fr, "std_dev": sd}
    kw["domain"] = [lo, lo + wd]
    B.seed(3)
    E = B.run("exp_decay_1D", B.mud("examples.exp_decay").exp_decay_1D, **kw)
    B.seed(3)
    lam = B.frozen("uniform", lo, wd).rvs(size=n)
    ts = [t0 + k / fr for k in range(int((t1 - t0) * fr))]
    B.eq(E.lam, lam.reshape(-1, 1), "samples are uniform on the domain")
    B.eq(E.times, np.array(ts), "times from the start to the end of the range at the frequency asked for")
    t = lambda k: t0 + k / fr
    B.eq(E.data, B.table((n, len(ts)), lambda i, k: u0 * np.exp(0 - B.el(lam, i) * t(k))), "predictions are the decay curves of the samples")
    B.eq(E.true_vals, B.table((len(ts), 1), lambda k, _: u0 * np.exp(0 - true * t(k))), "true values are the decay curve of the true parameter")
    B.eq(E.std_dev, sd, "the noise level asked for")
    B.eq(E.domain, np.array([[lo, lo + wd]]), "the domain asked for")


@contract("P25", funcs=[EX + "exp_decay.exp_decay_2D"], bounded="3 or 4 times (all numbers of samples and values)")
def exp_decay_two(B):
    np = B.np
    n, sd = B.dim("n", num=(1, 6)), B.real("sd", pos=True)
    lo, wd = B.array("lo", 2), B.array("wd", 2, pos=True)
    t0, t1, fr, N = B.choice("times", [(0, 4, 1, 100), (1, 4, 2, 3)])
    true = [B.real("true0"), B.real("true1")]
    B.seed(3)
    E = B.run("exp_decay_2D", B.mud("examples.exp_decay").exp_decay_2D, time_range=[0, t1], domain=np.column_stack([lo, lo + wd]), num_samples=n, lambda_true=true,
              N=N, t_start=t0, sampling_freq=fr, std_dev=sd)
    B.seed(3)
    lam = B.frozen("uniform", lo, wd).rvs(size=(n, 2))
    ts = [t0 + k / fr for k in range(int((t1 - t0) * fr))][:N]
    B.eq(E.lam, lam, "samples are uniform on the domain")
    B.eq(E.times, np.array(ts), "times at the frequency asked for")
    t = lambda k: t0 + k / fr
    B.eq(E.data, B.table((n, len(ts)), lambda i, k: B.el(lam, i, 0) * np.exp(0 - B.el(lam, i, 1) * t(k))), "predictions are the decay curves of the samples")
    B.eq(E.true_vals, B.table((len(ts), 1), lambda k, _: true[0] * np.exp(0 - true[1] * t(k))), "true values are the decay curve of the true parameter")
    B.eq(E.std_dev, sd, "the noise level asked for")


@contract("P25", funcs=[EX + "linear.random_linear_problem"])
def random_problem(B):
    """a random map with exact data of a random reference; the settings given are those of the problem"""
    np = B.np
    p, m = B.dim("p", num=(1, 4)), B.dim("m", num=(1, 4))
    kw = {"dim_input": p, "dim_output": m}
    if B.choice("mean", ["default", "given"]) == "given":
        kw["mean_i"] = B.array("mu", p, 1)
    if B.choice("covariance", ["given"] if B.symbolic else ["default", "given"]) == "given":       # sorted draws: numerically only
        kw["cov_i"] = B.spd("C", p)
    seed = B.choice("seed", [None, 0, 8])
    if seed is not None:
        kw["seed"] = seed
    B.seed(3)
    ref, L = B.run("random_linear_problem", B.mud("examples.linear").random_linear_problem, **kw)
    B.seed(3 if seed is None else seed)
    A = np.random.randn(m, p)
    b = np.random.randn(m)
    x = np.random.randn(p)
    B.eq(L.A, A, "normal entries of the seeded stream")
    B.eq(L.b, b.reshape(-1, 1), "normal offsets")
    B.eq(ref, x.reshape(-1, 1), "normal reference")
    B.eq(L.y, L.A @ ref + L.b, "the data are exactly those of the reference")
    if "mean_i" in kw:
        B.eq(L.mean_i, kw["mean_i"], "the initial mean asked for")
    else:
        B.eq(L.mean_i, np.zeros((p, 1)), "initial mean is the origin")
    if "cov_i" in kw:
        B.eq(L.cov_i, kw["cov_i"], "the initial covariance asked for")
    else:
        i, j = B.index("i", p), B.index("j", p)
        if i != j:
            B.eq(L.cov_i[i, j], 0, "initial covariance is diagonal")


@contract("P25", funcs=[EX + "linear.noisy_linear_data"])
def noisy_data(B):
    np = B.np
    p = B.dim("p", num=(1, 3))
    rep = B.choice("operator", ["a row per datum", "repeated row"]) == "repeated row"
    N = B.dim("N", num=(1, 5))
    M = B.array("M", 1 if rep else N, p)
    ref = B.array("ref", p)
    kw = {}
    if rep or B.choice("number of data", ["default", "given"]) == "given":
        kw["num_data"] = N
    if B.choice("noise", ["shared", "per datum"]) == "shared":
        sd = B.real("sd", pos=True)
        s = lambda i: sd
    else:
        sd = B.array("sd", N, pos=True)
        s = lambda i: B.el(sd, i)
    B.seed(3)
    d = B.run("noisy_linear_data", B.mud("examples.linear").noisy_linear_data, M, ref, sd, **kw)
    B.seed(3)
    e = B.rng_draw(N, 1)
    B.shape_is(d, (N,), "one datum each")
    i = B.index("i", N)
    B.eq(d[i], B.sum(p, lambda k: B.el(M, 0 if rep else i, k) * B.el(ref, k)) + s(i) * e[i, 0], "the map of the reference plus noise of the level asked for")


@contract("P25", funcs=[EX + "linear.random_linear_wme_problem"], bounded="1 to 3 quantities (all other sizes)")
def wme_problem_data(B):
    """one operator with its data per quantity, with the noise level of the quantity"""
    np = B.np
    p, q = B.dim("p", num=(1, 3)), B.choice("quantities", [1, 2, 3])
    ref = B.array("ref", p)
    kw = {"num_qoi": q}
    n = B.choice("observations", ["shared", "per quantity"])
    if n == "shared":
        num = [B.choice("number", [1, 3])] * q
        kw["num_observations"] = num[0]
    else:
        num = [2, 4, 3][:q]
        kw["num_observations"] = num
    if B.choice("noise", ["shared", "per quantity"]) == "shared":
        sd = B.real("sd", pos=True)
        sds = [sd] * q
    else:
        sd = sds = [B.real(f"sd{k}", pos=True) for k in range(q)]
    uni = B.choice("entries", ["normal", "uniform"]) == "uniform"
    rep = B.choice("repeated", [True, False])
    if uni:
        kw["dist"] = "uniform"
    kw["repeated"] = rep
    if not rep and any(k != q for k in num):
        num = [q] * q
        kw["num_observations"] = num
    B.seed(3)
    ops, datas, std = B.run("random_linear_wme_problem", B.mud("examples.linear").random_linear_wme_problem, ref, sd, **kw)
    B.ensure(len(ops) == q and len(datas) == q and len(std) == q, "one operator, data vector and noise level per quantity")
    B.seed(3)
    for k in range(q):
        M = np.random.rand(q, p) if uni else np.random.randn(q, p)
        M = M[0:1, :] if rep else M
        e = B.rng_draw(num[k], 1)
        B.eq(ops[k], M, "random operator")
        B.eq(std[k], sds[k], "noise level of the quantity")
        B.shape_is(datas[k], (num[k],), "the number of observations of the quantity")
        for i in range(num[k]):
            B.eq(datas[k][i], B.sum(p, lambda c: B.el(M, 0 if rep else i, c) * B.el(ref, c)) + sds[k] * e[i, 0], "observations of the reference with the noise level of the quantity")


@contract("P25", funcs=[EX + "linear.random_linear_wme_problem"], bounded="2 quantities of 3 observations")
def wme_problem_rows(B):
    """operators without repeated rows have one row per observation"""
    ref = B.array("ref", B.dim("p", num=(1, 3)))
    ops, datas, _ = B.run("random_linear_wme_problem", B.mud("examples.linear").random_linear_wme_problem, ref, [0.1, 0.2], num_qoi=2, num_observations=3)
    for M, d in zip(ops, datas):
        B.shape_is(M, (3, ref.shape[0]), "one row per observation")
        B.shape_is(d, (3,), "the number of observations asked for")


@contract("P25", funcs=[EX + "linear.rotation_map"], bounded="at most 4 rows (all values)")
def rotation(B):
    import math
    np = B.np
    q = B.choice("rows", [1, 2, 4])
    kw = {"qnum": q}
    b, ref = np.zeros((q, 1)), np.array([[0.5], [0.5]])
    if B.choice("offset", ["default", "given"]) == "given":
        b = B.array("b", q, 1)
        kw["b"] = b
    if B.choice("reference", ["default", "given"]) == "given":
        ref = B.array("ref", 2, 1)
        kw["ref_param"] = ref
    tol = 0.1
    if B.choice("tolerance", ["default", "given"]) == "given":
        tol = B.real("tol", pos=True)
        kw["tol"] = tol
    seed = B.choice("seed", [None, 24, 7])
    if seed is not None:
        kw["seed"] = seed
    B.seed(3)
    A, gb, y, mean, cov, gref = B.run("rotation_map", B.mud("examples.linear").rotation_map, **kw)
    B.seed(3 if seed is None else seed)
    B.eq(gb, b, "the offset asked for")
    B.eq(gref, ref, "the reference asked for")
    B.shape_is(A, (q, 2), "one row per quantity")
    B.eq(y, A @ ref + b, "the data are exactly those of the reference")
    B.eq(mean, B.rng_draw(2).reshape(-1, 1), "the initial mean is drawn from the seeded stream")
    B.eq(cov, np.eye(2) * B.mud("util").std_from_equipment(tol), "the initial covariance is that of the tolerance asked for")


@contract("P25", funcs=[EX + "linear.rotation_map_trials"], symbolic=False, bounded="2 rows, 2 trials")
def rotation_trials(B):
    method = B.choice("method", ["ordered", "shuffle", "batch", "random"])
    B.recorded_axes()
    B.run("rotation_map_trials", B.mud("examples.linear").rotation_map_trials, numQoI=2, method=method, num_trials=2, model_eval_budget=6, ax=B.recorder("ax"), seed=24)


# ------------------------------------------------------------------ data sets

def example_loader(B, load, extra):
    """an example's data file: parts are those of the file, measurements are synthetic"""
    np = B.np
    E = Entries(B, t=extra.get("t"), s=extra.get("s"))
    ds = {f: E.v[f][0] for f in ["lam", "data", "true_vals", "domain"] + extra["keys"]}
    ds["measurements"], ds["std_dev"], ds["sample_dist"] = "decoy", "decoy", "decoy"
    kw = {}
    if B.choice("noise", ["default", "given"]) == "given":
        kw["std_dev"] = E.v["std_dev"][0]
    seed = B.choice("seed", ["default", 0, 5, None])
    if seed != "default":
        kw["seed"] = seed
    B.seed(1)
    data, sp = B.run("load", load, B.pickled(ds), **kw)
    B.seed({"default": 21, None: 1}.get(seed, seed))
    sd = kw.get("std_dev", 0.05)
    m = (E.v["true_vals"][0] + B.rng_draw(E.s * E.t) * sd).reshape(-1, 1)
    B.ensure(sorted(data) == sorted(ds), "the raw data are returned too")
    for f in ["lam", "data", "true_vals", "domain"] + extra["keys"]:
        B.eq(getattr(sp, f), E.v[f][1], "part from the file: " + f)
    B.eq(sp.std_dev, sd, "noise level as asked for")
    B.eq(sp.measurements, m, "measurements are the true values plus seeded noise of that level")
    return sp


@contract("P25", funcs=["mud.examples.poisson.load_poisson_prob", S + "load"])
def poisson_loader(B):
    sp = example_loader(B, B.mud("examples.poisson").load_poisson_prob, dict(t=1, keys=["sensors"]))
    B.ensure(sp.lam_ref is None, "no reference")
    B.eq(sp.n_ts, 1, "one time")


@contract("P25", funcs=["mud.examples.adcirc.load_adcirc_prob", S + "load"])
def adcirc_loader(B):
    example_loader(B, B.mud("examples.adcirc").load_adcirc_prob, dict(s=1, keys=["lam_ref", "times"]))


# ------------------------------------------------------------------ drivers

@contract("P25", funcs=[EX + "linear.run_contours"])
def contour_driver(B):
    """the settings given override the defaults, and exactly the figures asked for are drawn and saved where asked"""
    np = B.np
    m = B.mud("examples.linear")
    figs = {"data_mismatch": "call_mismatch", "tikhonov": "call_tikhonov", "consistent": "call_consistent", "map": "call_map", "mud": "call_mud", "comparison": "call_comparison"}
    want = B.choice("figures", [None, ["all"], ["mud"], ["map", "tikhonov"], ["data_mismatch", "consistent", "comparison"], []])
    kw, over = {}, {}
    if B.choice("problem", ["default", "given"]) == "given":
        over = {"A": B.array("A", 1, 2), "b": B.array("b", 1, 1), "y": B.array("y", 1, 1), "mean_i": B.array("mu", 2, 1), "cov_i": B.spd("C", 2), "cov_o": B.spd("R", 1)}
        B.assume(B.el(over["A"], 0, 0) > 0.1)
    if want is not None:
        kw["plot_fig"] = want
    out = {}
    if B.choice("saved", ["no", "yes"]) == "yes":
        out = {"save_path": "somewhere", "dpi": 77, "close_fig": True}
    st = {f: Stand() for f in figs.values()}
    with standing_in(m, **st):
        L = B.run("run_contours", m.run_contours, **kw, **out, **over)
    dft = {"A": np.array([[1, 1]]), "b": np.array([[0]]), "y": np.array([[1]]), "mean_i": np.array([[0.25], [0.25]]),
           "cov_i": np.array([[1, -0.25], [-0.25, 0.5]]), "cov_o": np.array([[1]])}
    for k, v in dft.items():
        B.eq(getattr(L, k), over.get(k, v), "the problem has the " + k + " asked for")
    for f, g in figs.items():
        drawn = want is None or f in want or "all" in want
        B.ensure(len(st[g].calls) == (1 if drawn else 0), f"figure {f} is drawn exactly when asked for")
        for c in st[g].calls:
            B.ensure(c["lin_prob"] is L, "figures show the problem")
            B.ensure(all(c.get(k) == v for k, v in out.items()), "figures are saved as asked for")


@contract("P25", funcs=[EX + "comparison.run_comparison_example"], bounded="at most 2 numbers of data points (all values)")
def comparison_driver(B):
    """for every number of data points asked for, both problems are built on the same synthetic data with the settings asked for"""
    m = B.mud("examples.comparison")
    n, k = B.dim("n", num=(4, 8)), B.choice("data points", [[1], [3], [1, 3]])
    B.assume(n >= 2)
    mu, sigma = B.real("mu"), B.real("sigma", pos=True)
    dom = [B.real("lo"), B.real("hi")]
    B.assume(dom[0] + 1 < dom[1])
    p = B.choice("power", [1, 5])
    sets = [(B.array(f"lam{j}", n, 1), B.array(f"q{j}", n, 1), B.array(f"d{j}", N)) for j, N in enumerate(k)]
    it = iter(sets)
    data = Stand(result=lambda: next(it))
    plot = Stand(("d_prob", "b_prob"), result=lambda: B.recorder("ax"))
    save = Stand(("fname",))
    with standing_in(m, polynomial_1D_data=data, comparison_plot=plot, save_figure=save):
        o = B.call(m.run_comparison_example, p=p, num_samples=n, mu=mu, sigma=sigma, domain=dom, N_vals=k, save_path=B.choice("saved", [None, "somewhere"]), dpi=77)
    if not o.ok and not B.symbolic:
        B.assume(False)          # the kernel estimate or the posterior may degenerate
    if not o.ok:
        return
    res = o.value
    B.ensure(len(res) == len(k) and len(data.calls) == len(k), "one pair of problems per number of data points")
    for c, N in zip(data.calls, k):
        for a, v in (("p", p), ("N", N), ("mu", mu), ("sigma", sigma), ("num_samples", n)):
            same(B, c.get(a), v, f"synthetic data with the {a} asked for")
        B.eq(c["domain"], B.np.array([dom]), "synthetic data on the domain asked for")
    for r, (lam, q, d) in zip(res, sets):
        D = B.mud("base").DensityProblem(lam, q, domain=dom)
        D.set_observed(B.frozen("norm", B.np.mean(d), sigma))
        Y = B.mud("base").BayesProblem(lam, q, domain=dom)
        Y.set_likelihood(B.frozen("norm", d, sigma))
        B.eq(r[0].X, lam, "density problem on the synthetic samples")
        B.eq(r[0].y, q, "density problem on the synthetic predictions")
        B.eq(r[0]._ob, D._ob, "observed density around the mean of the data")
        B.eq(r[1]._ll, Y._ll, "likelihood around the data")


@contract("P25", funcs=[EX + "linear.run_wme_covariance", EX + "linear.run_high_dim_linear"], symbolic=False, bounded="at most 4 dimensions, 6 data")
def seeded_linear_drivers(B):
    """a seed reproduces the run, whatever happened before"""
    m = B.mud("examples.linear")
    B.recorded_axes()
    seed = B.choice("seed", [0, 3, 21])
    a, b = B.choice("input dimension", [3, 4]), B.choice("output dimension", [1, 2])
    if B.choice("driver", ["covariance", "dimension"]) == "covariance":
        run = lambda s: B.run("run_wme_covariance", m.run_wme_covariance, dim_input=a, dim_output=b, sigma=0.3, Ns=[2, 6], seed=s)[0]
        P, Q = run(seed), run(seed)
        for f in ("A", "b", "cov_i"):
            B.eq(getattr(P, f), getattr(Q, f), "the seed reproduces the problem: " + f)
        B.shape_is(P.A, (b, a), "the dimensions asked for")
    else:
        run = lambda s: B.run("run_high_dim_linear", m.run_high_dim_linear, dim_input=a, dim_output=b, seed=s)
        P, Q = run(seed), run(seed)
        B.eq(B.np.array(P), B.np.array(Q), "the seed reproduces the errors")
        ref, L = m.random_linear_problem(dim_input=a, dim_output=b, seed=seed)
        for j, al in enumerate((1.0, 0.1, 0.001)):
            L.alpha = al
            for k in range(b):
                e = [B.np.linalg.norm(s - ref) / B.np.linalg.norm(ref) for s in L.solve(method="all", output_dim=k + 1)]
                B.eq(B.np.array(P[0][j][k]), B.np.array(e), "errors of the solutions that use the first rows")


@contract("P25", funcs=[EX + "poisson.run_2d_poisson_sol", EX + "poisson.run_2d_poisson_trials"], symbolic=False, bounded="6 samples, 4 sensors")
def seeded_poisson_drivers(B):
    """a seed reproduces the run, whatever happened before; the noise level asked for is the one used"""
    np = B.np
    m = B.mud("examples.poisson")
    B.recorded_axes()
    E = Entries(B, t=1, s=4, p=2)
    B.assume(E.n >= 4)
    ds = {f: E.v[f][0] for f in ["lam", "data", "true_vals", "domain", "sensors"]}
    f = B.pickled(ds)
    seed, order = B.choice("seed", [0, 3]), B.choice("order", ["random", "sorted", "as they are"])
    which = B.choice("driver", ["solution", "trials"])
    used = []

    def learned(self, **k):
        used.append(list(k["sensors_mask"]))
        self.seen = True
        return types.SimpleNamespace(estimate=lambda: None, expected_ratio=lambda: 1.0, plot_param_space=lambda **k: B.recorder("ax"))

    sigma = B.choice("sigma", [0.05, 0.3])
    with standing_in(m, minimize=lambda *a, **k: {"x": np.array([-3.0, -1.0])}), standing_in(m.SpatioTemporalProblem, mud_problem=learned):
        def run():
            if which == "solution":
                return B.run("run_2d_poisson_sol", m.run_2d_poisson_sol, f, sigma=sigma, seed=seed, plot_fig=["none"], order=order)[0]
            return B.run("run_2d_poisson_trials", m.run_2d_poisson_trials, f, N_vals=[2, 4], sigma=sigma, seed=seed, order=order)[0]
        P = run()
        k = len(used)
        Q = run()
    B.eq(P.measurements, Q.measurements, "the seed reproduces the measurements")
    B.eq(P.std_dev, sigma, "the noise level asked for")
    B.ensure(used[:k] == used[k:], "the seed reproduces the order of the sensors")
    if which == "trials":
        B.ensure([len(u) for u in used[:k]] == [2, 4], "the numbers of sensors asked for")
        B.ensure(used[0] == used[1][:2], "every trial adds sensors to the previous one")
    if order == "as they are":
        B.ensure(used[k - 1] == [0, 1, 2, 3], "sensors in their own order")
    if order == "sorted":
        s = [tuple(ds["sensors"][i]) for i in used[k - 1]]
        B.ensure(s == sorted(s), "sensors sorted by position")


@contract("P25", funcs=[EX + "adcirc.tri_mesh_plot"], symbolic=False, bounded="one mesh")
def mesh_figure(B):
    """the data set asked for is the one drawn, zoomed as asked, stations where they are"""
    np = B.np
    m = B.mud("examples.adcirc")
    B.recorded_axes()
    v = B.choice("value", ["wind_speed_mult_0", "other"])
    n = 4
    g = {"X": np.array([0.0, 1, 0, 1]), "Y": np.array([0.0, 0, 1, 1]), "triangles": np.array([[0, 1, 2], [1, 3, 2]]), "XEL": B.array("xs", n), "YEL": B.array("ys", n),
         "wind_speed_mult_0": B.array("w", n), "other": B.array("o", n)}
    st = B.choice("stations", [None, [2], [0, 3]])
    zoom = B.choice("zoom", [None, [[1.0, 0.5], [2.0, 0.25]]])
    B.run("tri_mesh_plot", m.tri_mesh_plot, g, value=v, zoom=zoom, **({} if st is None else {"stations": st}))
    c = B.calls("plt.tricontourf")
    B.ensure(len(c) == 1, "one contour plot")
    B.eq(c[0][2][1], g[v], "the data set asked for is drawn")
    pts = B.calls("plt.scatter")
    B.ensure([(float(e[2][0]), float(e[2][1])) for e in pts] == [(float(g["XEL"][s]), float(g["YEL"][s])) for s in (st or [0])], "stations at their places")
    if zoom:
        B.ensure([e[2] for e in B.calls("*.set_xlim")] == [(0.5, 1.5)] and [e[2] for e in B.calls("*.set_ylim")] == [(1.75, 2.25)], "zoomed as asked")


# ------------------------------------------------------------------ command line

OBJ = {"show": False, "seed": None, "save_path": "somewhere", "dpi": 77}


class Command:
    """a command of the command line with settings of its group"""

    def __init__(self, B, name):
        self.B, self.mod = B, B.mud("examples.examples")
        cli = B.mud("cli").cli
        self.cmd = cli.commands["examples"].commands[name]
        B.ensure(cli.commands["examples"] is self.mod.examples, "the examples are a command of the program")
        self.obj = dict(OBJ, seed=B.choice("seed", [None, 0, 7]))
        self.through = B.choice("through", ["call"] if B.symbolic else ["call", "flags"])

    def run(self, label, args=(), **opts):
        """opts: name -> (flag, value)"""
        B = self.B
        if B.symbolic:
            return B.run(label, self.cmd.callback, types.SimpleNamespace(obj=self.obj), **{**dict(args), **{k: v for k, (_, v) in opts.items()}})
        import click
        if self.through == "call":
            with click.Context(self.cmd, obj=self.obj):
                return B.run(label, self.cmd.callback, **{**dict(args), **{k: v for k, (_, v) in opts.items()}})
        words = []
        for flag, v in opts.values():
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                words += [flag, x if isinstance(x, str) else repr(x.item() if hasattr(x, "item") else x)]
        words += ["--"] + [str(v) for _, v in args]
        return B.run(label, lambda: self.cmd.main(words, standalone_mode=False, obj=self.obj))

    def out(self):
        return {"save_path": "somewhere", "dpi": 77}


def reals(B, *names):
    return [B.real(n) for n in names]


@contract("P25", funcs=[EX + "examples.comparison", "mud.cli.cli"], bounded="two entries per list option (all values)")
def comparison_command(B):
    C = Command(B, "comparison")
    mu, sigma, lo, hi = reals(B, "mu", "sigma", "lo", "hi")
    p, n, N = B.dim("p", num=(1, 9)), B.dim("n", num=(1, 9)), [B.dim("N0", num=(1, 9)), B.dim("N1", num=(1, 9))]
    st = Stand(result=list)
    dom = [B.dim("lo", num=(1, 4)), B.dim("hi", num=(5, 9))]
    with standing_in(C.mod, run_comparison_example=st):
        C.run("comparison", power=("-p", p), num_samples=("-n", n), mu=("-m", mu), sigma=("-s", sigma), domain=("-d", dom), n_vals=("--n-vals", N),
              **({"latex_labels": ("", True)} if C.through == "call" else {}))
    passed(B, st, dict(p=p, num_samples=n, mu=mu, sigma=sigma, domain=dom, N_vals=N, **C.out()), "run_comparison_example")


@contract("P25", funcs=[EX + "examples.contours", "mud.cli.cli"], bounded="two figures")
def contours_command(B):
    C = Command(B, "contours")
    st = Stand(("plot_fig",))
    figs = ["mud", "map"]
    opts = {"plot_fig": ("-p", figs)}
    prob = {"A": [[1.0, 2.0]], "y": [[3.0]]}
    if not B.symbolic and B.choice("problem file", ["no", "yes"]) == "yes":
        import json
        import os
        from pyvc.num import scratch
        f = os.path.join(scratch(), "prob.json")
        with open(f, "w") as fh:
            json.dump(prob, fh)
        opts["lin_prob_file"] = ("-f", f)
    with standing_in(C.mod, run_contours=st):
        C.run("contours", **opts)
    passed(B, st, dict(plot_fig=figs, **C.out()), "run_contours")
    for k, v in prob.items() if "lin_prob_file" in opts else []:
        B.eq(st.calls[0].get(k), B.np.array(v), "the problem of the file: " + k)


@contract("P25", funcs=[EX + "examples.wme_covariance", EX + "examples.high_dim_linear", "mud.cli.cli"], bounded="two entries per list option (all values)")
def linear_commands(B):
    which = B.choice("command", ["wme-covariance", "high-dim-linear"])
    C = Command(B, which)
    i, o = B.dim("i", num=(1, 9)), B.dim("o", num=(1, 9))
    st = Stand()
    if which == "wme-covariance":
        sigma, N = B.real("sigma"), [B.dim("N0", num=(1, 9)), B.dim("N1", num=(1, 9))]
        with standing_in(C.mod, run_wme_covariance=st):
            C.run(which, dim_input=("-i", i), dim_output=("-o", o), sigma=("-s", sigma), num_data=("-n", N))
        passed(B, st, dict(dim_input=i, dim_output=o, sigma=sigma, Ns=N, seed=C.obj["seed"], **C.out()), "run_wme_covariance")
    else:
        with standing_in(C.mod, run_high_dim_linear=st):
            C.run(which, dim_input=("-i", i), dim_output=("-o", o))
        passed(B, st, dict(dim_input=i, dim_output=o, seed=C.obj["seed"], **C.out()), "run_high_dim_linear")


def solved():
    return types.SimpleNamespace(estimate=lambda: 0, expected_ratio=lambda: 1)


@contract("P25", funcs=[EX + "examples.poisson_solve", "mud.cli.cli"])
def poisson_solve_command(B):
    C = Command(B, "poisson-solve")
    st = Stand(("data_file",), result=lambda: (None, solved(), []))
    sigma = B.real("sigma")
    with standing_in(C.mod, run_2d_poisson_sol=st):
        C.run("poisson_solve", [("data_file", "the file")], sigma=("-s", sigma), plot_fig=("-p", ["qoi", "response"]))
    passed(B, st, dict(data_file="the file", sigma=sigma, plot_fig=["qoi", "response"], seed=C.obj["seed"], **C.out()), "run_2d_poisson_sol")


@contract("P25", funcs=[EX + "examples.poisson_trials", "mud.cli.cli"], bounded="two entries per list option (all values)")
def poisson_trials_command(B):
    C = Command(B, "poisson-trials")
    st = Stand(("data_file",), result=lambda: (None, [solved(), solved()], []))
    v = {k: [B.real(k + "a"), B.real(k + "b")] for k in ("ylim1", "ylim2", "xlim1", "xlim2")}
    sigma = B.real("sigma")
    with standing_in(C.mod, run_2d_poisson_trials=st, print_res=Stand(result="")):
        C.run("poisson_trials", [("data_file", "the file")], sigma=("-s", sigma), n_vals=("-n", [9, 4]), ylim1=("-y1", v["ylim1"]), ylim2=("-y2", v["ylim2"]),
              xlim1=("-x1", v["xlim1"]), xlim2=("-x2", v["xlim2"]), plot_fig=("-p", ["none", "such"]))
    passed(B, st, dict(plot_fig=["none", "such"]), "run_2d_poisson_trials")
    passed(B, st, dict(data_file="the file", sigma=sigma, N_vals=[4, 9], seed=C.obj["seed"], **v, **C.out()), "run_2d_poisson_trials")


@contract("P25", funcs=[EX + "examples.poisson_generate", "mud.cli.cli"], bounded="two entries per list option (all values)")
def poisson_generate_command(B):
    C = Command(B, "poisson-generate")
    st = Stand(("num_samples", "num_sensors"), result=lambda: (None, "path"))
    v = {k: [B.real(k + "a"), B.real(k + "b")] for k in ("mins", "maxs", "sensor_low", "sensor_high")}
    n, s, g = B.dim("n", num=(1, 9)), B.dim("s", num=(1, 9)), B.dim("g", num=(1, 9))
    with standing_in(C.mod, run_fenics=st):
        C.run("poisson_generate", [("num_samples", n), ("num_sensors", s)], gamma=("-g", g), **{k: ("--" + k, x) for k, x in v.items()})
    passed(B, st, dict(num_samples=n, num_sensors=s, gamma=g, seed=C.obj["seed"], save_path="somewhere", **v), "run_fenics")


@contract("P25", funcs=[EX + "examples.adcirc_solve", "mud.cli.cli"], bounded="two time windows")
def adcirc_command(B):
    C = Command(B, "adcirc-solve")
    prob = object()
    raw = {"wind_speed": ["wt", "ws", "more"], "grid_data": {"a": 1}}
    load = Stand(("data_file",), result=lambda: (raw, prob))
    ts, mesh, win = Stand(("prob",)), Stand(("grid",)), Stand(("prob", "window"), result=solved)
    sigma, ly, cut = B.real("sigma"), B.real("ly"), B.dim("cut", num=(1, 9))
    nc = B.choice("components", [1, 2])
    t1, t2, lx = ["a1", "a2"], ["b1", "b2"], ["x1", "x2"]
    p1, p2 = reals(B, "p10", "p11"), reals(B, "p20", "p21")
    figs = B.choice("figures", [["all"], ["full_ts"], ["mesh"], ["updated_dist"]])
    with standing_in(C.mod, load_adcirc_prob=load, adcirc_ts_plot=ts, tri_mesh_plot=mesh, adcirc_time_window=win, print_res=Stand(result="")):
        C.run("adcirc_solve", [("data_file", "the file")], num_components=("-n", nc), t_start=("-t1", t1), t_end=("-t2", t2), labels_x=("-lx", lx), labels_y=("-ly", ly),
              p1_ylims=("-p1", p1), p2_ylims=("-p2", p2), sigma=("-s", sigma), mesh_value=("-mv", "DP"), mesh_zoom=("-mz", "[[1, 2], [3, 4]]"), mesh_cb_cutoff=("-mc", cut), plot_fig=("-p", figs))
    passed(B, load, dict(data_file="the file", std_dev=sigma, seed=C.obj["seed"]), "load_adcirc_prob")
    al = "all" in figs
    if al or "full_ts" in figs:
        passed(B, ts, dict(time_windows=[("a1", "b1"), ("a2", "b2")], wind_speeds=["wt", "ws"], labels=[["x1", ly], ["x2", ly]], **C.out()), "adcirc_ts_plot")
        B.ensure(ts.calls[0]["prob"] is prob, "time series of the problem loaded")
    else:
        B.ensure(not ts.calls, "no time series unless asked for")
    if al or "mesh" in figs:
        passed(B, mesh, dict(value="DP", zoom=[[1, 2], [3, 4]], colorbar_cutoff=cut, **C.out()), "tri_mesh_plot")
        B.ensure(mesh.calls[0]["grid"] is raw["grid_data"], "mesh of the file")
    else:
        B.ensure(not mesh.calls, "no mesh unless asked for")
    B.ensure(len(win.calls) == 2, "one solution per time window")
    for k, c in enumerate(win.calls):
        B.ensure(c["prob"] is prob, "solution of the problem loaded")
        same(B, c["window"], (t1[k], t2[k]), "the time window asked for")
        same(B, c["num_components"], nc, "the number of components asked for")
        same(B, c["plot_figs"], figs, "the figures asked for")
        same(B, c["ylims"], (p1[k], p2[k]), "the limits asked for")
        B.ensure(c["save_path"] == "somewhere" and c["dpi"] == 77, "saved where asked for")


META["P25"] = {}
