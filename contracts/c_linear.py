# props: P09 P10 P11 P12 P13
"""Linear Gaussian problems: closed-form MUD / MAP / least-squares solutions, updated
covariance, functionals, and the functional entry points."""
from pyvc.contract import contract, META

META["P09"] = {"lean": ["linear.lean"]}
META["P10"] = {"lean": ["linear.lean"]}
META["P11"] = {"lean": ["linear.lean"]}

INIT = "mud.base.LinearGaussianProblem.__init__"
SOLVE = "mud.base.LinearGaussianProblem.solve"


class Lin:
    """symbolic linear problem: A x + b = y, prior N(mu, C), observed covariance Co"""

    def __init__(self, B, graded=False):
        self.B = B
        self.m, self.p = B.dim("m"), B.dim("p")
        self.A = B.array("A", self.m, self.p, graded=graded)
        self.b, self.y = B.array("b", self.m, 1), B.array("y", self.m, 1)
        self.mu, self.C, self.Co = B.array("mu", self.p, 1), B.spd("C", self.p), B.spd("Co", self.m)
        self.alpha = B.real("alpha", pos=True)
        B.well(self.A @ self.C @ self.A.T, lim=1e9 if graded else 1e5)

    def args(self):
        return dict(A=self.A, b=self.b, y=self.y, mean_i=self.mu, cov_i=self.C, cov_o=self.Co, alpha=self.alpha)

    def make(self):
        return self.B.run("construct", self.B.mud("base").LinearGaussianProblem, **self.args())

    def rows(self, k):
        """restriction to the first k equations"""
        self.A, self.b, self.y, self.Co = self.A[:k, :], self.b[:k, :], self.y[:k, :], self.Co[:k, :k]
        self.m = k


def z(P):
    return P.y - P.b - P.A @ P.mu


def ref_mud(P):
    """mu + C A^T (A C A^T)^+ (y - b - A mu): independent of the observed covariance and
    of the scale of the prior covariance"""
    pinv = P.B.np.linalg.pinv
    return P.mu + P.C @ P.A.T @ pinv(P.A @ P.C @ P.A.T) @ z(P)


def ref_upcov(P, C, Co):
    pinv = P.B.np.linalg.pinv
    M = P.A @ C @ P.A.T
    K = C @ P.A.T @ pinv(M)
    return C - K @ M @ K.T + K @ Co @ K.T


def ref_mud_alt(P):
    inv = P.B.np.linalg.inv
    return P.mu + ref_upcov(P, P.alpha * P.C, P.Co) @ P.A.T @ inv(P.Co) @ z(P)


def ref_covp(P):
    inv = P.B.np.linalg.inv
    return inv(P.A.T @ inv(P.Co) @ P.A + inv(P.alpha * P.C))


def ref_map(P):
    return P.mu + ref_covp(P) @ P.A.T @ P.B.np.linalg.inv(P.Co) @ z(P)


def ref_ls(P):
    return P.B.np.linalg.pinv(P.A) @ (P.y - P.b)


def full_rank_numeric(B, P):
    if not B.symbolic:
        B.assume(P.m <= P.p)
        B.well(P.A @ P.C @ P.A.T, P.A @ P.A.T)


# ------------------------------------------------------------------ P09

@contract("P09", funcs=[INIT, SOLVE])
def mud_closed_form(B):
    P = Lin(B, graded=True)
    L = P.make()
    r = B.run("solve", L.solve, method="mud")
    B.eq(r, ref_mud(P), "mud point is the closed form", tol=1e-5)
    B.eq(L.mud, ref_mud(P), "mud point is kept on the problem", tol=1e-5)


@contract("P09", funcs=[INIT, SOLVE, "mud.base.LinearGaussianProblem.updated_cov"])
def mud_alt_closed_form(B):
    P = Lin(B)
    full_rank_numeric(B, P)
    L = P.make()
    r = B.run("solve", L.solve, method="mud_alt")
    B.eq(r, ref_mud_alt(P), "rank-k update form")
    if not B.symbolic:
        # lemma mud_alt_eq_mud (lean): both forms coincide for an invertible A C A^T
        B.eq(r, ref_mud(P), "the two mud forms coincide", tol=1e-5)
        B.eq(P.A @ ref_mud(P) + P.b, P.y, "mud point predicts the data", tol=1e-5)


@contract("P09", funcs=[INIT, SOLVE])
def mud_defaults(B):
    """left-out settings: b = 0, y = 0, mean 0, unit covariances, alpha = 1"""
    np = B.np
    P = Lin(B)
    kw = P.args()
    drop = B.choice("left out", ["b", "y", "mean_i", "cov_i", "cov_o", "alpha", "alpha=None"])
    if drop == "alpha=None":
        kw["alpha"] = None
        P.alpha = 1.0
    else:
        del kw[drop]
    if drop == "b":
        P.b = np.zeros((P.m, 1))
    if drop == "y":
        P.y = np.zeros((P.m, 1))
    if drop == "mean_i":
        P.mu = np.zeros((P.p, 1))
    if drop == "cov_i":
        P.C = np.eye(P.p)
        B.well(P.A @ P.A.T)
    if drop == "cov_o":
        P.Co = np.eye(P.m)
    if drop == "alpha":
        P.alpha = 1.0
    L = B.run("construct", B.mud("base").LinearGaussianProblem, **kw)
    B.eq(B.run("solve", L.solve), ref_mud(P), "default method is mud, with the documented defaults")
    B.eq(B.run("solve", L.solve, method="map"), ref_map(P), "map with the documented defaults")


@contract("P09", funcs=[INIT, SOLVE])
def mud_shapes(B):
    """vectors may be given flat, as rows or as columns; one equation may be a flat row"""
    P = Lin(B)
    kw = P.args()
    form = B.choice("form", ["flat", "row"])
    f = (lambda v: v.ravel()) if form == "flat" else (lambda v: v.T)
    for k in ("b", "y", "mean_i"):
        kw[k] = f(kw[k])
    L = B.run("construct", B.mud("base").LinearGaussianProblem, **kw)
    r = B.run("solve", L.solve)
    B.shape_is(r, (P.p, 1), "solution is a column")
    B.eq(r, ref_mud(P), "closed form")


@contract("P09", funcs=[INIT, SOLVE])
def mud_single_row(B):
    P = Lin(B)
    P.rows(1)
    kw = P.args()
    kw["A"] = P.A.ravel()
    L = B.run("construct", B.mud("base").LinearGaussianProblem, **kw)
    B.eq(B.run("solve", L.solve), ref_mud(P), "closed form for a flat operator")


@contract("P09", funcs=[SOLVE])
def mud_output_dim(B):
    """output_dim restricts every ingredient to the leading equations"""
    P = Lin(B)
    L = P.make()
    k = B.dim("k", 1, hi=P.m)
    meth = B.choice("method", ["mud", "map", "ls", "mud_alt"])
    P.rows(k)
    if meth == "ls":
        B.well(P.A)
    r = B.run("solve", L.solve, method=meth, output_dim=k)
    ref = {"mud": ref_mud, "map": ref_map, "ls": ref_ls, "mud_alt": ref_mud_alt}[meth]
    if meth != "map":
        full_rank_numeric(B, P)
    B.eq(r, ref(P), "closed form of the reduced problem")


@contract("P09", funcs=[SOLVE])
def no_outputs(B):
    """the problem made of no rows: nothing is learnt"""
    P = Lin(B)
    L = P.make()
    meth = B.choice("method", ["mud", "map", "ls", "mud_alt"])
    r = B.run("solve", L.solve, method=meth, output_dim=0)
    B.eq(r, B.np.zeros((P.p, 1)) if meth == "ls" else P.mu.reshape(-1, 1), "prior mean (zero for least squares)")


@contract("P09", funcs=[SOLVE])
def solve_all(B):
    P = Lin(B)
    full_rank_numeric(B, P)
    L = P.make()
    r = B.run("solve", L.solve, method="all")
    B.ensure(isinstance(r, tuple) and len(r) == 3, "three solutions")
    B.eq(r[0], ref_mud(P), "first is mud")
    B.eq(r[1], ref_map(P), "second is map")
    B.eq(r[2], ref_ls(P), "third is least squares")
    B.eq(L.cov_p, ref_covp(P), "posterior covariance")
    B.eq(L.up_cov, ref_upcov(P, P.alpha * P.C, P.Co), "updated covariance")


@contract("P09", funcs=[INIT, SOLVE])
def solve_repeatable(B):
    """any sequence of solves gives what a fresh problem gives; inputs stay untouched"""
    P = Lin(B)
    if not B.symbolic:
        full_rank_numeric(B, P)
    fr = B.freeze(P.A, P.b, P.y, P.mu, P.C, P.Co)
    L = P.make()
    ms = ["mud", "map", "ls", "mud_alt", "all"]
    first = B.choice("first", ms)
    second = B.choice("second", ["mud", "map", "ls"])
    B.run("first", L.solve, method=first)
    r = B.run("second", L.solve, method=second)
    ref = {"mud": ref_mud, "map": ref_map, "ls": ref_ls}[second]
    B.eq(r, ref(P), "later solves do not depend on earlier ones")
    B.unchanged(fr, "arguments are not modified")


def solved_before(B, P):
    """a problem that has been solved before, by any method for any number of outputs"""
    if not B.symbolic:
        full_rank_numeric(B, P)
        B.well(P.A)
    L = P.make()
    first = B.choice("first", ["mud", "map", "ls", "mud_alt", "all"])
    kw = {} if B.choice("outputs before", ["all", "some"]) == "all" else {"output_dim": B.dim("k0", 1, hi=P.m)}
    B.run("first", L.solve, method=first, **kw)
    kw = {}
    if B.choice("outputs", ["all", "some"]) == "some":
        k = B.dim("k", 1, hi=P.m)
        P.rows(k)
        kw = {"output_dim": k}
    return L, kw


@contract("P09", funcs=[INIT, SOLVE])
def mud_after_other_solves(B):
    P = Lin(B)
    L, kw = solved_before(B, P)
    m = B.choice("method", ["mud", "mud_alt"])
    B.eq(B.run("second", L.solve, method=m, **kw), {"mud": ref_mud, "mud_alt": ref_mud_alt}[m](P), "later solves do not depend on earlier ones")


@contract("P09", funcs=[INIT])
def data_mismatch(B):
    P = Lin(B)
    kw = P.args()
    q = B.dim("q")
    B.assume(q != P.m)
    kw["y"] = B.array("y2", q, 1)
    B.raises(B.call(B.mud("base").LinearGaussianProblem, **kw), "data of the wrong length is rejected", ValueError)


# ------------------------------------------------------------------ P10

@contract("P10", funcs=[INIT, SOLVE])
def map_closed_form(B):
    P = Lin(B)
    L = P.make()
    r = B.run("solve", L.solve, method="map")
    B.eq(r, ref_map(P), "map point is the closed form")
    B.eq(L.cov_p, ref_covp(P), "posterior covariance")
    if not B.symbolic:
        inv = B.np.linalg.inv
        # lemma map_normal_equations (lean)
        g = P.A.T @ inv(P.Co) @ (P.A @ r + P.b - P.y) + inv(P.alpha * P.C) @ (r - P.mu)
        s = 1.0 + abs(P.A.T @ inv(P.Co) @ z(P)).max()
        B.ensure(abs(g).max() < 1e-5 * s, "gradient of the posterior functional vanishes")


@contract("P10", funcs=[INIT, SOLVE])
def ls_closed_form(B):
    P = Lin(B)
    B.well(P.A)
    L = P.make()
    r = B.run("solve", L.solve, method="ls")
    B.eq(r, ref_ls(P), "least squares solution is A^+ (y - b)")


@contract("P10", funcs=[INIT, SOLVE])
def map_scaling(B):
    """alpha scales the prior covariance; nothing else does"""
    P = Lin(B)
    L1 = P.make()
    kw = P.args()
    kw["cov_i"] = P.alpha * P.C
    kw["alpha"] = 1.0
    L2 = B.run("construct", B.mud("base").LinearGaussianProblem, **kw)
    B.eq(B.run("solve", L1.solve, method="map"), B.run("solve", L2.solve, method="map"), "alpha acts as a covariance scale")


@contract("P10", funcs=[INIT, SOLVE])
def map_ls_after_other_solves(B):
    P = Lin(B)
    L, kw = solved_before(B, P)
    m = B.choice("method", ["map", "ls"])
    B.eq(B.run("second", L.solve, method=m, **kw), {"map": ref_map, "ls": ref_ls}[m](P), "later solves do not depend on earlier ones")
    if m == "map":
        B.eq(L.cov_p, ref_covp(P), "posterior covariance")


# ------------------------------------------------------------------ P11

@contract("P11", funcs=[INIT, SOLVE, "mud.base.LinearGaussianProblem.updated_cov"])
def updated_cov_after_solves(B):
    P = Lin(B)
    L, kw = solved_before(B, P)
    if kw:
        r = B.run("updated_cov", L.updated_cov, A=P.A, init_cov=P.alpha * P.C, data_cov=P.Co)
        C = P.alpha * P.C
    else:
        r, C = B.run("updated_cov", L.updated_cov), P.C
    B.eq(r, ref_upcov(P, C, P.Co), "the updated covariance does not depend on earlier solves")


@contract("P11", funcs=["mud.base.LinearGaussianProblem.updated_cov"])
def updated_cov_method(B):
    P = Lin(B)
    full_rank_numeric(B, P)
    L = P.make()
    how = B.choice("arguments", ["none", "init_cov", "data_cov", "operator", "all"])
    kw = {}
    C, Co = P.C, P.Co
    if how in ("init_cov", "all"):
        C = kw["init_cov"] = B.spd("C2", P.p)
    if how in ("data_cov", "all"):
        Co = kw["data_cov"] = B.spd("Co2", P.m)
    if how in ("operator", "all"):
        P.A = kw["A"] = B.array("A2", P.m, P.p)
        full_rank_numeric(B, P)
    r = B.run("updated_cov", L.updated_cov, **kw)
    B.well(P.A @ C @ P.A.T)
    B.eq(r, ref_upcov(P, C, Co), "updated covariance formula")
    if not B.symbolic:
        # lemma upcov_push_forward (lean)
        B.eq(P.A @ r @ P.A.T, Co, "pushes forward to the observed covariance", tol=1e-5)


@contract("P11", funcs=["mud.funs.updated_cov"])
def updated_cov_function(B):
    np = B.np
    P = Lin(B)
    how = B.choice("arguments", ["none", "init_cov", "data_cov", "both"])
    kw = {}
    C, Co = np.eye(P.p), np.eye(P.m)
    if how in ("init_cov", "both"):
        C = kw["init_cov"] = P.C
    if how in ("data_cov", "both"):
        Co = kw["data_cov"] = P.Co
    if not B.symbolic:
        B.assume(P.m <= P.p)
    B.well(P.A @ C @ P.A.T)
    r = B.run("updated_cov", B.mud("funs").updated_cov, P.A, **kw)
    B.eq(r, ref_upcov(P, C, Co), "updated covariance formula")
    B.eq(r, B.np.transpose(r), "symmetric")


@contract("P11", funcs=["mud.funs.updated_cov", "mud.base.LinearGaussianProblem.updated_cov"])
def updated_cov_mismatch(B):
    P = Lin(B)
    q = B.dim("q")
    which = B.choice("which", ["init_cov", "data_cov"])
    B.assume(q != (P.p if which == "init_cov" else P.m))
    where = B.choice("where", ["function", "method"])
    kw = {which: B.spd("W", q) if B.choice("shape", ["square", "other"]) == "square" else B.array("W", B.dim("rows", num=(1, 4)), q)}
    o = B.call(B.mud("funs").updated_cov, P.A, **kw) if where == "function" else B.call(P.make().updated_cov, **kw)
    B.raises(o, "covariance of the wrong size is rejected", (AssertionError, ValueError))


# ------------------------------------------------------------------ P12

def quad(B, r, M, n, k):
    """sum_ij r_i inv(M)_ij r_j for column k of r"""
    W = B.np.linalg.inv(M)
    return B.sum(n, lambda i: B.sum(n, lambda j: B.el(r, i, k) * B.el(W, i, j) * B.el(r, j, k)))


def ref_terms(B, P, X, n):
    r = P.A @ X.T + P.b - P.y
    d = X.T - P.mu
    pd = P.A @ d
    data = B.table((n,), lambda k: quad(B, r, P.Co, P.m, k))
    reg = B.table((n,), lambda k: P.alpha * quad(B, d, P.C, P.p, k))
    dc = B.table((n,), lambda k: P.alpha * quad(B, pd, P.A @ P.C @ P.A.T, P.m, k))
    return data, reg, dc


@contract("P12", funcs=["mud.base.LinearGaussianProblem.compute_functionals"])
def compute_functionals(B):
    """each term at each sample: weighted squared misfit / distance from the prior mean /
    predicted part of it"""
    P = Lin(B)
    n = B.dim("n")
    X = B.array("X", n, P.p)
    if not B.symbolic:
        full_rank_numeric(B, P)
    L = P.make()
    t = B.choice("terms", ["data", "reg", "dc_term", "reg_m", "bayes", "dc", "all", "default"])
    o = B.run("compute_functionals", L.compute_functionals, X, **({} if t == "default" else {"terms": t}))
    data, reg, dc = ref_terms(B, P, X, n)
    want = {"data": data, "reg": reg, "dc_term": dc, "reg_m": reg - dc, "bayes": data + reg, "dc": data + reg - dc}
    if t in want:
        B.eq(o, want[t], "value of the term")
    else:
        B.ensure(isinstance(o, tuple) and len(o) == 5, "five terms")
        for i, nm in enumerate(["data", "reg", "dc_term", "bayes", "dc"]):
            B.eq(o[i], want[nm], f"value of {nm}")


@contract("P12", funcs=[SOLVE, "mud.base.LinearGaussianProblem.compute_functionals"])
def functionals_after_solves(B):
    """earlier solves and earlier evaluations leave the functionals as they were"""
    P = Lin(B)
    n = B.dim("n")
    X, X2 = B.array("X", n, P.p), B.array("X2", n, P.p)
    if not B.symbolic:
        full_rank_numeric(B, P)
        B.well(P.A)
    L, L2 = P.make(), P.make()
    B.run("solve", L.solve, method=B.choice("solved", ["mud", "map", "ls", "mud_alt", "all"]))
    B.run("other samples", L.compute_functionals, X2)
    t = B.choice("terms", ["data", "reg", "dc_term", "reg_m", "bayes", "dc"])
    B.eq(B.run(t, L.compute_functionals, X, terms=t), B.run("fresh " + t, L2.compute_functionals, X, terms=t), "as on a fresh problem")


@contract("P12", funcs=["mud.norm.inner_product"])
def inner_product(B):
    k, n = B.dim("k"), B.dim("n")
    X, M = B.array("X", k, n), B.spd("M", k)
    r = B.run("inner_product", B.mud("norm").inner_product, X, M)
    B.eq(r, B.table((n,), lambda j: quad(B, X, M, k, j)), "x^T M^-1 x for each column")


@contract("P12", funcs=["mud.norm.full_functional", "mud.norm.norm_input", "mud.norm.norm_data", "mud.norm.norm_predicted",
                        "mud.norm.inner_product"])
def norm_functionals(B):
    np = B.np
    m, p, n = B.dim("m"), B.dim("p"), B.dim("n")
    A, X = B.array("A", m, p), B.array("X", n, p)
    d, mu = B.array("d", m, 1), B.array("mu", p, 1)
    ck = B.choice("initial covariance", ["matrix", "float", "int"])
    C = B.spd("C", p) if ck == "matrix" else B.real("c", pos=True) if ck == "float" else 2
    ok = B.choice("observed covariance", ["matrix", "float", "int", "default"])
    Co = B.spd("Co", m) if ok == "matrix" else B.real("co", pos=True) if ok == "float" else 3 if ok == "int" else 1
    mk = B.choice("observed mean", ["row", "zero", "default"])
    om = B.array("om", 1, m) if mk == "row" else 0
    Cm = C if ck == "matrix" else C * np.eye(p)
    Com = Co if ok == "matrix" else Co * np.eye(m)
    if not B.symbolic:
        B.assume(m <= p)
        B.well(A @ Cm @ A.T)
    N = B.mud("norm")
    e = X.T - mu
    r = A @ X.T + d - (om.T if mk == "row" else 0)
    t_in = B.table((n,), lambda k: quad(B, e, Cm, p, k))
    t_da = B.table((n,), lambda k: quad(B, r, Com, m, k))
    t_pr = B.table((n,), lambda k: quad(B, A @ e, A @ Cm @ A.T, m, k))
    B.eq(B.run("norm_input", N.norm_input, X, mu, C), t_in, "input norm")
    B.eq(B.run("norm_predicted", N.norm_predicted, A, X, mu, C), t_pr, "predicted norm")
    if ok != "default" and mk != "default":
        B.eq(B.run("norm_data", N.norm_data, A, X, d, om, Co), t_da, "data norm")
    kw = {}
    if mk != "default":
        kw["observed_mean"] = om
    if ok != "default":
        kw["observed_cov"] = Co
    B.eq(B.run("full_functional", N.full_functional, A, X, d, mu, C, **kw), t_in + t_da - t_pr, "full functional")


@contract("P12", funcs=["mud.base.LinearGaussianProblem.compute_functionals", "mud.norm.full_functional"])
def functionals_agree(B):
    """the class and the module compute the same data-consistent functional"""
    P = Lin(B)
    n = B.dim("n")
    X = B.array("X", n, P.p)
    if not B.symbolic:
        full_rank_numeric(B, P)
    kw = P.args()
    kw["alpha"] = 1.0
    L = B.run("construct", B.mud("base").LinearGaussianProblem, **kw)
    a = B.run("dc", L.compute_functionals, X, terms="dc")
    f = B.run("full_functional", B.mud("norm").full_functional, P.A, X, P.b, P.mu, P.C, observed_mean=P.y.T, observed_cov=P.Co)
    B.eq(a, f, "same functional")


# ------------------------------------------------------------------ P13

@contract("P13", funcs=["mud.funs.mud_sol", "mud.funs.map_sol", "mud.funs.mud_sol_with_cov", "mud.funs.map_sol_with_cov",
                        "mud.funs.lin_prob"])
def entry_points(B):
    """same answers as the class, flat when the data is flat"""
    P = Lin(B)
    full_rank_numeric(B, P)
    F = B.mud("funs")
    form = B.choice("data", ["flat", "column"])
    which = B.choice("function", ["mud_sol", "map_sol", "mud_sol_with_cov", "map_sol_with_cov"])
    kw = dict(mean=P.mu, cov=P.C, data_cov=P.Co)
    y = P.y.ravel() if form == "flat" else P.y
    if which.startswith("map"):
        kw["w"] = P.alpha
    else:
        P.alpha = 1.0
    o = B.run(which, getattr(F, which), P.A, P.b, y, **kw)
    ref = {"mud_sol": ref_mud, "map_sol": ref_map, "mud_sol_with_cov": ref_mud_alt, "map_sol_with_cov": ref_map}[which](P)
    ref = ref.ravel() if form == "flat" else ref
    if which.endswith("with_cov"):
        B.ensure(isinstance(o, tuple) and len(o) == 2, "solution and covariance")
        B.eq(o[0], ref, "solution")
        B.eq(o[1], ref_covp(P) if which.startswith("map") else ref_upcov(P, P.C, P.Co), "covariance")
    else:
        B.eq(o, ref, "solution")


@contract("P13", funcs=["mud.funs.mud_sol", "mud.funs.map_sol", "mud.funs.lin_prob"])
def entry_defaults(B):
    np = B.np
    P = Lin(B)
    F = B.mud("funs")
    which = B.choice("function", ["mud_sol", "map_sol"])
    drop = B.choice("left out", ["y", "mean", "cov", "data_cov", "all"])
    kw = dict(y=P.y, mean=P.mu, cov=P.C, data_cov=P.Co)
    if drop in ("y", "all"):
        P.y = np.zeros((P.m, 1))
    if drop in ("mean", "all"):
        P.mu = np.zeros((P.p, 1))
    if drop in ("cov", "all"):
        P.C = np.eye(P.p)
    if drop in ("data_cov", "all"):
        P.Co = np.eye(P.m)
    if drop == "all":
        kw = {}
    else:
        del kw[drop]
    P.alpha = 1.0
    B.well(P.A @ P.C @ P.A.T)
    o = B.run(which, getattr(F, which), P.A, P.b, **kw)
    ref = (ref_mud if which == "mud_sol" else ref_map)(P)
    B.eq(o, ref.ravel() if drop in ("y", "all") else ref, "documented defaults")


@contract("P13", funcs=["mud.funs.lin_prob"])
def lin_prob_forwards(B):
    P = Lin(B)
    L = B.run("lin_prob", B.mud("funs").lin_prob, P.A, P.b, y=P.y, mean=P.mu, cov=P.C, data_cov=P.Co, alpha=P.alpha)
    B.eq(B.run("solve", L.solve, method="map"), ref_map(P), "map of the built problem")
    B.eq(B.run("solve", L.solve), ref_mud(P), "mud of the built problem")


@contract("P13", funcs=["mud.funs.lin_prob"])
def lin_prob_weights(B):
    """every regularisation weight reaches the problem, also none and zero"""
    P = Lin(B)
    a = B.choice("weight", ["left out", None, 0, 0.0, 1, 2.5])
    kw = {} if a == "left out" else {"alpha": a}
    L = B.run("lin_prob", B.mud("funs").lin_prob, P.A, P.b, y=P.y, mean=P.mu, cov=P.C, data_cov=P.Co, **kw)
    M = B.run("construct", B.mud("base").LinearGaussianProblem, P.A, P.b, P.y, P.mu, P.C, P.Co, **kw)
    x = B.array("x", B.dim("k", num=(1, 3)), P.p)
    B.well(P.A @ P.C @ P.A.T)
    f, g = B.run("functionals", L.compute_functionals, x), B.run("functionals", M.compute_functionals, x)
    for u, v in zip(f, g):
        B.eq(u, v, "functionals of the built problem")
    w = 1.0 if a in ("left out", None) else a
    reg = B.table((x.shape[0],), lambda k: quad(B, x.T - P.mu, P.C, P.p, k))
    B.eq(f[1], w * reg, "regularisation with the weight given")
