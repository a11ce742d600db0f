# props: P15 P16 P17 P18
"""Weighted mean error maps, linear aggregation, noise / tolerance helpers, decompositions."""
from pyvc.contract import contract, META

META["P18"] = {"lean": ["null.lean"]}

F = "mud.funs."
U = "mud.util."


# ------------------------------------------------------------------ P15

def ref_wme(B, pred, data, sd, n, N):
    return B.table((n,), lambda k: B.sum(N, lambda j: B.el(pred, k, j) - B.el(data, j)) / (sd * B.sqrt(N)))


@contract("P15", funcs=[F + "wme"])
def wme_contract(B):
    n, N = B.dim("n", num=(1, 5)), B.dim("N", num=(1, 5))
    wme = B.mud("funs").wme
    shape = B.choice("predictions", ["rows", "flat"])
    if shape == "flat":
        flat = B.array("q", N)
        pred = flat.reshape(1, -1)
        n = 1
    else:
        flat = pred = B.array("Q", n, N)
    data = B.array("data", N)
    form = B.choice("data", ["flat", "column", "row"])
    dd = data if form == "flat" else data.reshape(-1, 1) if form == "column" else data.reshape(1, -1)
    fz = B.freeze(flat, dd)
    if B.choice("noise level", ["given", "of the data"]) == "given":
        sd = B.real("sd", pos=True)
        r = B.run("wme", wme, flat, dd, sd)
    else:
        sd = B.np.std(data)
        B.assume(sd > (0 if B.symbolic else 0.05))
        r = B.run("wme", wme, flat, dd)
    B.shape_is(r, (n,), "one value per sample")
    B.eq(r, ref_wme(B, pred, data, sd, n, N), "sum of residuals over noise level and root of the number of data")
    B.unchanged(fz, "arguments are not modified")


@contract("P15", funcs=[F + "wme"])
def wme_mismatch(B):
    n, N, M = B.dim("n", num=(1, 4)), B.dim("N", num=(1, 5)), B.dim("M", num=(1, 5))
    B.assume(N != M)
    B.raises(B.call(B.mud("funs").wme, B.array("Q", n, N), B.array("data", M), B.real("sd", pos=True)),
             "data of another length are rejected", ValueError)


class Qoi:
    def __init__(self, B, flat=False):
        self.B = B
        self.n = B.dim("n", lo=2, num=(4, 8))
        self.p, self.N = B.dim("p", num=(1, 3)), (1 if flat else B.dim("N", num=(2, 6)))
        self.lam = B.array("lam", self.n, self.p)
        self.qoi = B.array("qoi", self.n) if flat else B.array("qoi", self.n, self.N)
        self.q2 = self.qoi.reshape(-1, 1) if flat else self.qoi
        self.true = B.array("true", self.N)
        self.sd = B.real("sd", pos=True)
        lo, wd = B.array("dlo", self.p), B.array("dwd", self.p, pos=True)
        self.dom = B.np.column_stack([lo, lo + wd])

    def obs(self):
        """number of observations asked for -> (argument, number in force)"""
        B = self.B
        if B.choice("num_obs", ["all", "some"]) == "all":
            return {}, self.N
        k = B.dim("k", num=(1, 6))
        B.assume(k <= self.N)
        return {"num_obs": k}, k


@contract("P15", funcs=[F + "mud_problem", F + "wme"])
def mud_problem_contract(B):
    P = Qoi(B, flat=B.choice("predictions", ["matrix", "flat"]) == "flat")
    kw, k = P.obs()
    w = B.array("w", P.n, pos=True) if B.choice("weights", [False, True]) else None
    if w is not None:
        kw["weights"] = w
    fz = B.freeze(P.lam, P.qoi, P.true, P.dom)
    form = B.choice("samples", ["matrix", "flat"])
    if form == "flat":
        B.assume(P.p == 1)
    lam = P.lam if form == "matrix" else P.lam.reshape(-1)
    B.seed(1)
    D = B.run("mud_problem", B.mud("funs").mud_problem, lam, P.qoi, P.true, P.dom, P.sd, **kw)
    B.seed(1)
    data = P.true[:k] + B.rng_draw(k) * P.sd
    B.eq(D.X, P.lam, "the samples are the problem's samples")
    B.eq(D.domain, P.dom, "the domain is the problem's domain")
    B.eq(D.y, ref_wme(B, P.q2, data, P.sd, P.n, k).reshape(-1, 1), "predictions are the weighted mean errors of the first outputs against noisy data")
    B.eq(D._weights if hasattr(D, "_weights") else B.unsupported("weights"), w if w is not None else B.np.ones(P.n), "sample weights")
    B.unchanged(fz, "arguments are not modified")


@contract("P15", funcs=[F + "mud_problem", F + "wme"])
def mud_problem_groups(B):
    """one column per index group"""
    P = Qoi(B)
    kw, k = P.obs()
    g = [1, 2, 3][B.choice("groups", [0, 1, 2])]
    groups, sizes = [], []
    for q in range(g):
        s = B.dim(f"s{q}", num=(1, 4))
        groups.append(B.idx_array(f"g{q}", s, k))
        sizes.append(s)
    fz = B.freeze(P.lam, P.qoi, P.true, *groups)
    B.seed(1)
    D = B.run("mud_problem", B.mud("funs").mud_problem, P.lam, P.qoi, P.true, P.dom, P.sd, split=groups, **kw)
    B.seed(1)
    noise = B.rng_draw(k) * P.sd
    cols = [ref_wme(B, P.qoi[:, i], P.true[i] + noise[i], P.sd, P.n, s) for i, s in zip(groups, sizes)]
    B.eq(D.y, B.np.stack(cols, axis=1), "one weighted mean error per group")
    B.eq(D.X, P.lam, "the samples are the problem's samples")
    B.unchanged(fz, "arguments are not modified")


@contract("P15", funcs=[F + "mud_problem", F + "wme"])
def any_groups(B):
    """any number of index groups of any sizes"""
    P = Qoi(B)
    kw, k = P.obs()
    g = B.dim("groups", num=(1, 4))
    groups = B.idx_arrays("group", g, k)
    w = B.array("w", P.n, pos=True) if B.choice("weights", [False, True]) else None
    if w is not None:
        kw["weights"] = w
    B.seed(1)
    D = B.run("mud_problem", B.mud("funs").mud_problem, P.lam, P.qoi, P.true, P.dom, P.sd, split=groups, **kw)
    B.seed(1)
    noise = B.rng_draw(k) * P.sd
    B.shape_is(D.y, (P.n, g), "one column per group")
    j = B.index("j", g)
    i = B.item(groups, j)
    B.eq(D.y[:, j], ref_wme(B, P.qoi[:, i], P.true[i] + noise[i], P.sd, P.n, i.shape[0]), "one weighted mean error per group")
    B.eq(D.X, P.lam, "the samples are the problem's samples")
    B.eq(D.domain, P.dom, "the domain is the problem's domain")
    B.eq(D._weights if hasattr(D, "_weights") else B.unsupported("weights"), w if w is not None else B.np.ones(P.n), "sample weights")


@contract("P15", funcs=[F + "mud_problem"])
def groups_beyond_observations(B):
    """indices beyond the requested observations are left out of their group"""
    P = Qoi(B)
    k = B.dim("k", num=(1, 6))
    B.assume(k <= P.N)
    groups = [B.idx_array(f"g{q}", B.dim(f"s{q}", num=(1, 5)), P.N) for q in range(2)]
    keep = [g[g < k] for g in groups]
    for g in keep:
        B.assume(g.shape[0] >= 1)
    B.seed(1)
    D = B.run("mud_problem", B.mud("funs").mud_problem, P.lam, P.qoi, P.true, P.dom, P.sd, split=groups, num_obs=k)
    B.seed(1)
    noise = B.rng_draw(k) * P.sd
    cols = [ref_wme(B, P.qoi[:, i], P.true[i] + noise[i], P.sd, P.n, i.shape[0]) for i in keep]
    B.eq(D.y, B.np.stack(cols, axis=1), "one weighted mean error per group")


@contract("P15", funcs=[F + "map_problem"])
def map_problem_contract(B):
    P = Qoi(B, flat=B.choice("predictions", ["matrix", "flat"]) == "flat")
    kw, k = P.obs()
    log = B.choice("log", [False, True])
    form = B.choice("samples", ["matrix", "flat"])
    if form == "flat":
        B.assume(P.p == 1)
    lam = P.lam if form == "matrix" else P.lam.reshape(-1)
    sd = P.sd if B.symbolic else P.sd + 0.5
    B.seed(1)
    D = B.run("map_problem", B.mud("funs").map_problem, lam, P.qoi, P.true, P.dom, sd=sd, log=log, **kw)
    B.seed(1)
    data = P.true[:k] + B.rng_draw(k) * sd
    B.eq(D.X, P.lam, "the samples are the problem's samples")
    B.eq(D.y, P.q2[:, :k], "predictions are the first outputs")
    B.eq(D.domain, P.dom, "the domain is the problem's domain")
    prior = B.dist("prior", pos=True)
    B.run("set_prior", D.set_prior, prior)
    pv = prior.pdf(P.lam)
    pv = B.table((P.n,), lambda i: B.prod(P.p, lambda j: B.el(pv2, i, j))) if False else pv.prod(axis=1)
    like = B.frozen("norm", data, sd)
    ps = B.np.log(pv) + like.logpdf(P.q2[:, :k]).sum(axis=1) if log else pv * like.pdf(P.q2[:, :k]).prod(axis=1)
    o = B.call(D.map_point)
    if not B.symbolic and not log:
        B.assume(float(B.np.sum(ps)) != 0)
    m = B.get(o, "map_point")
    B.eq(m, P.lam[B.np.argmax(ps), :], "MAP point of the normal likelihood around the noisy data")


@contract("P15", funcs=[F + "mud_problem", F + "map_problem"])
def observations_out_of_range(B):
    P = Qoi(B)
    f = getattr(B.mud("funs"), B.choice("problem", ["mud_problem", "map_problem"]))
    k = B.dim("k", lo=-3, num=(-3, 9))
    B.assume(B.lor(k < 1, k > P.N))
    B.raises(B.call(f, P.lam, P.qoi, P.true, P.dom, P.sd, num_obs=k), "out-of-range numbers of observations are rejected", ValueError)


@contract("P15", funcs=[F + "mud_problem"])
def helper_defaults(B):
    """default noise level"""
    P = Qoi(B)
    which = B.choice("problem", ["mud_problem", "map_problem"])
    B.seed(1)
    D = B.run(which, getattr(B.mud("funs"), which), P.lam, P.qoi, P.true, P.dom)
    B.seed(1)
    data = P.true + B.rng_draw(P.N) * 0.05
    if which == "mud_problem":
        B.eq(D.y, ref_wme(B, P.qoi, data, 0.05, P.n, P.N).reshape(-1, 1), "default noise level 0.05")
    else:
        B.eq(D.y, P.qoi, "all outputs")


# ------------------------------------------------------------------ P16

class Map:
    """one quantity of interest observed N times"""

    def __init__(self, B, tag="", p=None, repeated=False, tiny=True):
        self.B, self.tag = B, tag
        self.N = B.dim("N" + tag, lo=1 if repeated else 2, num=(1 if repeated else 2, 5))
        self.p = B.dim("p", num=(1, 3)) if p is None else p
        self.rows = 1 if repeated else self.N
        self.M = B.array("M" + tag, self.rows, self.p)
        self.data = B.array("data" + tag, self.N)
        # noise levels above the documented limit of 1e-14 are fine, however small
        self.mag = 1 if B.symbolic or not tiny else B.choice("noise magnitude" + tag, [1, 1, 1e-9])
        self.M, self.data = self.M * self.mag, self.data * self.mag
        self.std = B.real("sd" + tag, pos=True) * self.mag
        B.assume(self.std > 1e-12)
        self.sv = self.std * B.np.ones(self.N)

    def vector_noise(self):
        self.std = self.B.array("sv" + self.tag, self.N, pos=True) * self.mag
        self.B.assume(self.B.forall(self.N, lambda i: self.B.el(self.std, i) > 1e-12))
        self.sv = self.std

    def row(self, i, j):
        return self.B.el(self.M, 0 if self.rows == 1 and not (self.N == 1) else i, j)

    def aggregated(self):
        B, s = self.B, B_sqrt(self.B, self.N)
        A = B.table((1, self.p), lambda _, j: B.sum(self.N, lambda i: self.row(i, j) / (B.el(self.sv, i) * s)))
        b = 0 - B.sum(self.N, lambda i: B.el(self.data, i) / (B.el(self.sv, i) * s))
        return A, b


def B_sqrt(B, n):
    return B.sqrt(n)


def as_data(B, P):
    form = B.choice("data" + P.tag, ["flat", "column", "list"])
    return P.data if form == "flat" else P.data.reshape(-1, 1) if form == "column" else B.as_list(P.data)


@contract("P16", funcs=[U + "transform_linear_map", "mud.base.LinearWMEProblem._transform_linear_map"])
def transform_contract(B):
    rep = B.choice("operator", ["N rows", "one row"]) == "one row"
    P = Map(B, repeated=rep)
    noise = "scalar" if rep else B.choice("noise", ["scalar", "vector", "list"])
    if noise != "scalar":
        P.vector_noise()
    dd = as_data(B, P)
    std = B.as_list(P.std) if noise == "list" else P.std
    fz = B.freeze(P.M, dd, P.std)
    eA, eb = P.aggregated()
    via = B.choice("through", ["transform_linear_map", "transform_linear_setup", "LinearWMEProblem"])
    if via == "transform_linear_map":
        A, b = B.run(via, B.mud("util").transform_linear_map, P.M, dd, std)
        B.eq(A.reshape(1, -1), eA, "row sum of the weighted operator rows")
        B.eq(b, eb, "offset is minus the sum of the weighted data")
        A = A.reshape(1, -1)
    else:
        ss = std if noise == "scalar" and B.choice("one noise level", [False, True]) else [std]
        if via == "transform_linear_setup":
            A, b = B.run(via, B.mud("util").transform_linear_setup, [P.M], [dd], ss)
        else:
            L = B.run(via, B.mud("base").LinearWMEProblem, [P.M], [dd], ss)
            A, b = L.A, L.b
        B.eq(A, eA, "row sum of the weighted operator rows")
        B.eq(b, B.np.array([[eb]]), "offset is minus the sum of the weighted data")
    B.unchanged(fz, "arguments are not modified")
    # the aggregated residual is the weighted mean error of the individual residuals
    x = B.array("x", P.p, 1)
    pred = (P.M @ x)
    if rep:
        pred = B.el(pred, 0, 0) * B.np.ones((P.N, 1))
    if P.std is not P.sv:
        w = B.run("wme", B.mud("funs").wme, pred.T, P.data, P.std)
        B.eq((A @ x + b).reshape(-1), w, "aggregated residual is the weighted mean error")


@contract("P16", funcs=[U + "transform_linear_map", U + "transform_linear_setup", "mud.base.LinearWMEProblem.__init__"])
def transform_rejects(B):
    what = B.choice("defect", ["rows", "noise length", "vector noise for a repeated row", "vanishing noise", "vanishing entry"])
    via = B.choice("through", ["transform_linear_map", "transform_linear_setup", "LinearWMEProblem"])
    rep = what == "vector noise for a repeated row" or (what == "vanishing noise" and B.choice("operator", ["rows", "one row"]) == "one row")
    P = Map(B, repeated=rep)
    M, data, std = P.M, P.data, P.std
    if what == "rows":
        k = B.dim("k", lo=2, num=(2, 6))
        B.assume(k != P.N)
        M = B.array("Mk", k, P.p)
    elif what == "noise length":
        k = B.dim("k", num=(1, 6))
        B.assume(k != P.N)
        std = B.array("sk", k, pos=True)
    elif what == "vector noise for a repeated row":
        std = B.array("sk", P.N, pos=True)
    elif what == "vanishing noise":
        std = 0.0
    else:
        z = B.index("z", P.N)
        std = B.table((P.N,), lambda i: B.ite(i == z, 0, B.el(P.sv, i)))
    if via == "transform_linear_map":
        o = B.call(B.mud("util").transform_linear_map, M, data, std)
    elif via == "transform_linear_setup":
        o = B.call(B.mud("util").transform_linear_setup, [M], [data], [std])
    else:
        o = B.call(B.mud("base").LinearWMEProblem, [M], [data], [std])
    B.raises(o, f"rejected: {what}")


@contract("P16", funcs=[U + "transform_linear_setup", "mud.base.LinearWMEProblem.__init__"])
def stacked_quantities(B):
    """several quantities are stacked in order; class, function and list forms agree"""
    q = [1, 2, 3][B.choice("quantities", [0, 1, 2])]
    p = B.dim("p", num=(1, 3))
    shared = B.choice("noise", ["per quantity", "shared scalar"]) == "shared scalar"
    Ps = []
    for i in range(q):
        Ps.append(Map(B, tag=str(i), p=p, repeated=(i == B.choice("repeated", [-1, 0, 1]) if i == 0 else False)))
    if shared:
        for P in Ps:
            P.std, P.sv = Ps[0].std, Ps[0].std * B.np.ones(P.N)
    stds = Ps[0].std if shared else [P.std for P in Ps]
    ops, datas = [P.M for P in Ps], [P.data for P in Ps]
    fz = B.freeze(*ops, *datas)
    A, b = B.run("transform_linear_setup", B.mud("util").transform_linear_setup, ops, datas, stds)
    L = B.run("LinearWMEProblem", B.mud("base").LinearWMEProblem, ops, datas, stds)
    ag = [P.aggregated() for P in Ps]
    eA = B.np.vstack([a for a, _ in ag])
    eb = B.np.array([[v] for _, v in ag])
    B.eq(A, eA, "rows in order (function)")
    B.eq(b, eb, "offsets in order (function)")
    B.eq(L.A, eA, "rows in order (problem)")
    B.eq(L.b, eb, "offsets in order (problem)")
    B.eq(L.y, B.np.zeros((q, 1)), "zero data")
    B.unchanged(fz, "arguments are not modified")


@contract("P16", funcs=[U + "transform_linear_map", U + "transform_linear_setup", "mud.base.LinearWMEProblem.__init__", "mud.base.LinearWMEProblem._transform_linear_map"])
def any_quantities(B):
    """any number of quantities, each with its own number of observations, are stacked in order"""
    q, p = B.dim("q", num=(1, 4)), B.dim("p", num=(1, 3))
    ops, datas = B.ragged("M", q, p, lo=2), B.ragged("data", q, lo=2)
    noise = B.choice("noise", ["per quantity", "shared scalar", "per observation"])
    if noise == "per observation":
        sv = B.ragged("sv", q, lo=2, pos=True)
        stds, sd = sv, lambda j, i: B.el(B.item(sv, j), i)
        B.assume(B.forall(q, lambda j: B.forall(B.item(ops, j).shape[0], lambda i: sd(j, i) > 1e-12)))
    elif noise == "per quantity":
        s = B.array("sd", q, pos=True)
        stds, sd = B.as_list(s), lambda j, i: B.el(s, j)
        B.assume(B.forall(q, lambda j: sd(j, 0) > 1e-12))
    else:
        stds = B.real("sd", pos=True)
        B.assume(stds > 1e-12)
        sd = lambda j, i: stds
    if B.choice("through", ["transform_linear_setup", "LinearWMEProblem"]) == "LinearWMEProblem":
        L = B.run("LinearWMEProblem", B.mud("base").LinearWMEProblem, ops, datas, stds)
        A, b = L.A, L.b
        B.eq(L.y, B.np.zeros((q, 1)), "zero data")
    else:
        A, b = B.run("transform_linear_setup", B.mud("util").transform_linear_setup, ops, datas, stds)
    B.shape_is(A, (q, p), "one row per quantity")
    B.shape_is(b, (q, 1), "one offset per quantity")
    j = B.index("j", q)
    M, d = B.item(ops, j), B.item(datas, j)
    n = M.shape[0]
    r = B_sqrt(B, n)
    B.eq(A[j, :], B.table((p,), lambda c: B.sum(n, lambda i: B.el(M, i, c) / (sd(j, i) * r))), "row of the quantity")
    B.eq(b[j, 0], 0 - B.sum(n, lambda i: B.el(d, i) / (sd(j, i) * r)), "offset of the quantity")


@contract("P16", funcs=["mud.base.LinearWMEProblem.__init__"])
def wme_problem_settings(B):
    """prior, covariances and data reach the linear problem"""
    P = Map(B, tiny=False)
    C, mu, y = B.spd("C", P.p), B.array("mu", P.p, 1), B.array("y", 1, 1)
    R, a = B.spd("R", 1), B.real("alpha", pos=True)
    L = B.run("LinearWMEProblem", B.mud("base").LinearWMEProblem, [P.M], [P.data], [P.std], y=y, mean_i=mu, cov_i=C, cov_o=R, alpha=a)
    eA, eb = P.aggregated()
    G = B.run("LinearGaussianProblem", B.mud("base").LinearGaussianProblem, eA, B.np.array([[eb]]), y, mean_i=mu, cov_i=C, cov_o=R, alpha=a)
    B.well(eA @ C @ eA.T)
    for m in ("mud", "map", "ls"):
        B.eq(B.run(m, L.solve, method=m), B.run("aggregated " + m, G.solve, method=m), f"{m} point is that of the aggregated problem")


# ------------------------------------------------------------------ P17

@contract("P17", funcs=[U + "add_noise"])
def add_noise_contract(B):
    nd = B.choice("rank", [0, 1, 2, 3])
    shp = [B.dim(f"n{i}", num=(1, 4)) for i in range(nd)]
    s = B.array("signal", *shp) if nd else B.real("signal")
    sd = B.real("sd", pos=True)
    fz = B.freeze(s)
    seed = B.choice("seed", [None, 0, 21])
    kw = {} if seed is None else {"seed": seed}
    default = B.choice("sd", ["given", "default"]) == "default"
    if not default:
        kw["sd"] = sd
    else:
        sd = 0.05
    B.seed(5)
    r = B.run("add_noise", B.mud("util").add_noise, s, **kw)
    B.seed(5 if seed is None else seed)
    e = s + B.rng_draw(*shp) * sd
    B.shape_is(r, tuple(shp), "the shape of the signal")
    B.eq(r, e, "signal plus scaled independent standard-normal noise of the seeded stream")
    B.unchanged(fz, "the signal is unchanged")
    if seed is not None:
        B.eq(B.run("again", B.mud("util").add_noise, s, **kw), r, "the seed reproduces the noise")


@contract("P17", funcs=[U + "std_from_equipment"])
def std_from_equipment_contract(B):
    """P(|N(0, sd)| <= tolerance) = probability"""
    t = B.real("tol", pos=True)
    p = B.real("prob", pos=True)
    if B.symbolic:
        B.assume(p < 1)
    else:
        p = min(0.999, p / 5.0)
    how = B.choice("arguments", ["both", "defaults"])
    if how == "defaults":
        t, p = 0.1, 0.95
        sd = B.run("std_from_equipment", B.mud("util").std_from_equipment)
    else:
        sd = B.run("std_from_equipment", B.mud("util").std_from_equipment, t, p)
    B.ensure(sd > 0, "a positive standard deviation")
    if B.symbolic:
        # erf is the inverse of erfinv; mass of N(0, sd) within +-t is erf(t / (sd sqrt 2))
        from pyvc import stubs
        B.eq(stubs.sp_erf(t / (sd * B.np.sqrt(2))), p, "mass within the tolerance")
    else:
        n = B.frozen("norm", 0, sd)
        B.eq(n.cdf(t) - n.cdf(-t), p, "mass within the tolerance")


# ------------------------------------------------------------------ P18

@contract("P18", funcs=[U + "null_space"])
def null_space_contract(B):
    m, n = B.dim("m", num=(1, 5)), B.dim("n", num=(1, 5))
    A = B.array("A", m, n)
    np = B.np
    low = not B.symbolic and B.choice("rank deficient", [False, True])
    if low:
        r = B.dim("r", num=(1, 3))
        A = B.array("L", m, r) @ B.array("Rr", r, n)
    fz = B.freeze(A)
    given = B.choice("tolerance", ["given", "default", "zero"])
    if given == "zero":
        B.assume(B.symbolic or not low)     # rounding decides about the singular values of such matrices
        rc = B.choice("zero", [0, 0.0])
    elif given == "given":
        rc = B.real("rcond", pos=True)
        rc = rc if B.symbolic else min(rc, 0.9) * (1e-9 if low else 1)
    else:
        rc = np.finfo(float).eps * np.max(np.array([m, n]))
    Q = B.run("null_space", B.mud("util").null_space, A, **({"rcond": rc} if given != "default" else {}))
    u, s, vh = np.linalg.svd(A, full_matrices=True)
    num = np.sum(s > rc * np.max(s))
    B.eq(Q, vh[num:, :].T, "right singular vectors of the singular values not above the tolerance and those beyond the row count")
    B.unchanged(fz, "the matrix is unchanged")


@contract("P18", funcs=[U + "null_space"], symbolic=False, bounded="random matrices up to 5 x 5, some rank deficient")
def null_space_is_a_basis(B):
    np = B.np
    m, n, r = B.dim("m", num=(1, 5)), B.dim("n", num=(1, 5)), B.dim("r", num=(1, 4))
    A = B.array("L", m, r) @ B.array("Rr", r, n)
    s = np.linalg.svd(A, compute_uv=False)
    B.assume(s[0] > 1e-3 and not np.any((s > 1e-12 * s[0]) & (s < 1e-6 * s[0])))
    k = int(np.sum(s > 1e-9 * s[0]))
    Q = B.run("null_space", B.mud("util").null_space, A, rcond=1e-9)
    B.shape_is(Q, (n, n - k), "one vector per dimension of the null space")
    if n - k:
        B.eq(Q.T @ Q, np.eye(n - k), "orthonormal")
        B.ensure(np.max(np.abs(A @ Q)) < 1e-7 * s[0], "annihilated")


@contract("P18", funcs=[U + "rank_decomposition"])
def rank_decomposition_contract(B):
    np = B.np
    m, n = B.dim("m", num=(1, 4)), B.dim("n", num=(1, 4))
    A = B.array("A", m, n)
    u, s, vh = np.linalg.svd(A)
    L = B.run("rank_decomposition", B.mud("util").rank_decomposition, A)
    r = s.shape[0]
    B.eq(B.length(L), r, "one sum for every rank up to the smaller dimension")
    k = B.index("k", r)
    exp = B.table((m, n), lambda i, j: B.sum(k + 1, lambda q: B.el(s, q) * B.el(u, i, q) * B.el(vh, q, j)))
    B.eq(B.item(L, k), exp, "sum of the leading singular triplets")
    if not B.symbolic:                      # (lean/null.lean: all_triplets)
        B.eq(L[-1], A, "the last one is the matrix itself")
