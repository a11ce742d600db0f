# props: P14
"""Iterative linear solves: every step is the one-row problem of the next row, started at the previous estimate."""
from pyvc.contract import contract, META

I = "mud.base.IterativeLinearProblem."
LG = ["mud.base.LinearGaussianProblem.__init__", "mud.base.LinearGaussianProblem.solve"]
F = "mud.funs."
BND = "row order of at most 3 rows (of a matrix with any number of rows), at most 3 epochs"


class It:
    def __init__(self, B, graded=False):
        self.B = B
        self.m, self.p = B.dim("m", num=(1, 6)), B.dim("p", num=(1, 4))
        self.A = B.array("A", self.m, self.p)
        self.b, self.y = B.array("b", self.m, 1), B.array("y", self.m, 1)
        self.mu, self.C, self.R = B.array("mu", self.p, 1), B.spd("C", self.p), B.spd("R", self.m)

    def order(self, opts=(1, 2, 3)):
        """an order of rows: any rows, repeated or left out"""
        K = self.B.choice("rows in the order", list(opts))
        self.K = K
        self.idx = self.B.idx_array("order", K, self.m)
        return self.idx

    def rows(self, opts=(1, 2, 3)):
        """all rows, in the natural order"""
        B = self.B
        self.K = self.m = B.choice("rows", list(opts))
        self.A = B.array("A", self.m, self.p)
        self.b, self.y, self.R = B.array("b", self.m, 1), B.array("y", self.m, 1), B.spd("R", self.m)
        self.idx = B.np.arange(self.m)

    def args(self):
        return dict(b=self.b, y=self.y, mu_i=self.mu, cov=self.C, data_cov=self.R)

    def row(self, k):
        i = self.idx[k]
        return self.A[i, :].reshape(1, -1), self.b[i], self.y[i], self.R[i, i]

    def step(self, prev, k, method="mud"):
        """solution of the k-th one-row problem with prior mean prev"""
        la = self.B.np.linalg
        a, b, y, r = self.row(k)
        z = y - b - a @ prev
        if method == "mud":
            return prev + self.C @ a.T @ la.pinv(a @ self.C @ a.T) @ z.reshape(1, 1)
        if method == "map":
            rr = self.B.np.array([[r]])
            return prev + la.inv(a.T @ la.inv(rr) @ a + la.inv(self.C)) @ a.T @ la.inv(rr) @ z.reshape(1, 1)
        return la.pinv(a) @ (y - b).reshape(1, 1)

    def well(self):
        for k in range(self.K):
            a = self.row(k)[0]
            self.B.well(a @ self.C @ a.T)


def chain_ok(B, P, chain, start, method, label):
    """chain is a list: start, then one estimate per row of the order"""
    B.ensure(len(chain) == P.K + 1, label + ": one estimate per row after the starting one")
    B.eq(chain[0], start, label + ": begins with the estimate it started from")
    for k in range(P.K):
        prev = chain[k].reshape(-1, 1)
        B.eq(chain[k + 1].reshape(-1, 1), P.step(prev, k, method), label + ": next estimate solves the next one-row problem")
        P.shapes = chain[k + 1].shape


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, bounded=BND, weight=3)
def one_epoch(B):
    P = It(B)
    P.order()
    P.well()
    method = B.choice("method", ["mud", "map", "ls"])
    fz = B.freeze(P.A, P.b, P.y, P.mu, P.C, P.R)
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    r = B.run("solve", L.solve, method=method)
    B.ensure(len(L.solution_chains) == 1, "one chain per epoch")
    chain_ok(B, P, L.solution_chains[0], P.mu, method, "epoch")
    B.shape_is(r, (P.p, 1), "the estimate is a column")
    B.eq(r, L.solution_chains[0][P.K], "the result is the last estimate")
    B.unchanged(fz, "arguments are not modified")


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, bounded=BND, weight=3)
def epochs_continue(B):
    """every epoch and every further call continues from the last estimate"""
    P = It(B)
    P.order((1, 2))
    P.well()
    calls = B.choice("calls", [(2,), (3,), (1, 1), (2, 1)])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    r = None
    for e in calls:
        r = B.run("solve", L.solve, num_epochs=e)
    n = sum(calls)
    B.ensure(len(L.solution_chains) == n, "one chain per epoch")
    B.ensure(len(L.epochs) == n, "the sub-problems of every epoch are kept")
    start = P.mu
    for k in range(n):
        chain_ok(B, P, L.solution_chains[k], start, "mud", "epoch %d" % k)
        start = L.solution_chains[k][P.K]
    B.eq(r, start, "the result is the last estimate")


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, bounded="matrices of at most 3 rows", weight=2)
def defaults(B):
    """left-out settings: natural order, zero offsets and data, zero prior mean, unit covariances"""
    P = It(B)
    P.rows()
    np = B.np
    kw = P.args()
    drop = B.choice("left out", ["nothing", "b", "y", "mu_i", "cov", "data_cov"])
    if drop in kw:
        kw[drop] = None
    if drop == "b":
        P.b = np.zeros((P.m, 1))
    if drop == "y":
        P.y = np.zeros((P.m, 1))
    if drop == "mu_i":
        P.mu = np.zeros((P.p, 1))
    if drop == "cov":
        P.C = np.eye(P.p)
    if drop == "data_cov":
        P.R = np.eye(P.m)
    P.well()
    A = P.A
    if B.choice("operator", ["matrix", "flat row"]) == "flat row":
        if P.m != 1:
            return
        A = A.ravel()
    method = B.choice("method", ["mud", "map"])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, A, kw.pop("b"), **kw)
    r = B.run("solve", L.solve, method=method)
    chain_ok(B, P, L.solution_chains[0], P.mu, method, "epoch")
    B.eq(r, L.solution_chains[0][P.K], "the result is the last estimate")


@contract("P14", funcs=[I + "__init__", I + "solve"], bounded=BND)
def flat_vectors(B):
    """offsets, data and mean may be flat"""
    P = It(B)
    P.order((1, 2))
    P.well()
    kw = P.args()
    for k in ("b", "y", "mu_i"):
        kw[k] = kw[k].ravel()
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **kw)
    B.run("solve", L.solve)
    chain_ok(B, P, L.solution_chains[0], P.mu, "mud", "epoch")


@contract("P14", funcs=[I + "get_errors", I + "solve"], bounded=BND, weight=2)
def errors(B):
    P = It(B)
    P.order((1, 2))
    P.well()
    calls = B.choice("calls", [(1,), (2,), (1, 1)])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    form = B.choice("reference", ["column", "flat"])

    def check(n, ref, label):
        rr = ref if form == "column" else ref.ravel()
        e = B.run("get_errors", L.get_errors, rr)
        B.ensure(len(e) == n * P.K, label + ": one error per estimate")
        for j in range(n * P.K):
            s = L.solution_chains[j // P.K][j % P.K + 1]
            d = s - ref
            B.eq(e[j], B.sqrt(B.sum(P.p, lambda q: B.el(d, q, 0) * B.el(d, q, 0))), label + ": distance of the estimate to the reference")
        B.ensure(len(L.errors) == n * P.K, label + ": errors are kept on the problem")
    n = 0
    for c in calls:
        B.run("solve", L.solve, num_epochs=c)
        n += c
    for c in L.solution_chains:
        B.havoc(c)          # whatever the chains are
    check(n, B.array("ref", P.p, 1), "first reference")
    check(n, B.array("ref2", P.p, 1), "another reference")
    B.run("solve", L.solve)
    check(n + 1, B.array("ref3", P.p, 1), "after another epoch")


@contract("P14", funcs=[F + "iter_lin_solve"], bounded=BND)
def entry_point(B):
    P = It(B)
    P.order((1, 2))
    P.well()
    method = B.choice("method", ["mud", "map", "ls"])
    epochs = B.choice("epochs", [1, 2, "default"])
    kw = dict(method=method, num_epochs=epochs)
    if epochs == "default":
        epochs = 1
        kw.pop("num_epochs")
        if method == "mud":
            kw.pop("method")
    r = B.run("iter_lin_solve", B.mud("funs").iter_lin_solve, P.A, P.b, y=P.y, mean=P.mu, cov=P.C, data_cov=P.R,
              idx_order=P.idx, **kw)
    m = P.mu
    for _ in range(epochs):
        for k in range(P.K):
            m = P.step(m, k, method)
    B.eq(r, m, "the last estimate of the chain")


@contract("P14", funcs=[F + "performEpoch", F + "mud_sol"], bounded=BND, weight=2)
def perform_epoch(B):
    P = It(B)
    if B.choice("order", ["given", "natural"]) == "given":
        P.order()
        idx = P.idx
    else:
        P.rows()
        idx = None
    P.well()
    form = B.choice("vectors", ["columns", "flat"])
    b, y, mu = (P.b, P.y, P.mu) if form == "columns" else (P.b.ravel(), P.y.ravel(), P.mu.ravel())
    fz = B.freeze(P.A, b, y, mu, P.C)
    c = B.run("performEpoch", B.mud("funs").performEpoch, P.A, b, y, mu, P.C, idx=idx)
    chain_ok(B, P, c, mu, "mud", "chain")
    B.unchanged(fz, "arguments are not modified")


@contract("P14", funcs=[F + "iterate", F + "performEpoch"], bounded=BND, weight=2)
def iterate(B):
    P = It(B)
    P.order((1, 2))
    P.well()
    epochs = B.choice("epochs", [1, 2, 3])
    c = B.run("iterate", B.mud("funs").iterate, P.A, P.b, P.y, P.mu, P.C, num_epochs=epochs, idx=P.idx)
    B.ensure(len(c) == epochs * (P.K + 1), "one chain per epoch, concatenated")
    start = P.mu
    for e in range(epochs):
        chain_ok(B, P, c[e * (P.K + 1):(e + 1) * (P.K + 1)], start, "mud", "epoch")
        start = c[(e + 1) * (P.K + 1) - 1]


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, weight=3)
def any_order(B):
    """an order of any length"""
    P = It(B)
    P.K = B.dim("rows in the order", num=(1, 5))
    P.idx = B.idx_array("order", P.K, P.m)
    if isinstance(P.K, int):
        P.well()
    method = B.choice("method", ["mud", "map", "ls"])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    r = B.run("solve", L.solve, method=method)
    B.ensure(B.length(L.solution_chains) == 1, "one chain per epoch")
    c = B.item(L.solution_chains, 0)
    B.ensure(B.length(c) == P.K + 1, "one estimate per row after the starting one")
    B.eq(B.item(c, 0), P.mu, "begins with the prior mean")
    k = B.index("step", P.K)
    B.eq(B.item(c, k + 1).reshape(-1, 1), P.step(B.item(c, k).reshape(-1, 1), k, method), "next estimate solves the next one-row problem")
    B.eq(r, B.item(c, P.K), "the result is the last estimate")


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, weight=3)
def any_epochs(B):
    """any number of epochs over an order of any length, each continuing from the last estimate"""
    P = It(B)
    P.K = B.dim("rows in the order", num=(1, 4))
    P.idx = B.idx_array("order", P.K, P.m)
    if isinstance(P.K, int):
        P.well()
    E = B.dim("epochs", num=(1, 4))
    method = B.choice("method", ["mud", "map", "ls"])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    r = B.run("solve", L.solve, num_epochs=E, method=method)
    B.ensure(B.length(L.solution_chains) == E, "one chain per epoch")
    e = B.index("epoch", E)
    c = B.item(L.solution_chains, e)
    B.ensure(B.length(c) == P.K + 1, "one estimate per row after the starting one")
    if B.is_true(e == 0):
        B.eq(B.item(c, 0), P.mu, "begins with the prior mean")
    else:
        B.eq(B.item(c, 0), B.item(B.item(L.solution_chains, e - 1), P.K), "begins with the last estimate of the epoch before")
    k = B.index("step", P.K)
    B.eq(B.item(c, k + 1).reshape(-1, 1), P.step(B.item(c, k).reshape(-1, 1), k, method), "next estimate solves the next one-row problem")
    B.eq(r, B.item(B.item(L.solution_chains, E - 1), P.K), "the result is the last estimate")


class Free(It):
    """an order of any length over a matrix with any number of rows"""

    def __init__(self, B, natural=False):
        super().__init__(B)
        if natural:
            self.K = self.m
            self.idx = B.np.arange(self.m)
        else:
            self.K = B.dim("rows in the order", num=(1, 4))
            self.idx = B.idx_array("order", self.K, self.m)

    def well(self):
        if isinstance(self.K, int):
            super().well()

    def chain(self, c, method, label):
        """one estimate per row, each the solution of the next one-row problem"""
        B = self.B
        B.ensure(B.length(c) == self.K + 1, label + ": one estimate per row after the starting one")
        k = B.index("step of " + label, self.K)
        B.eq(B.item(c, k + 1).reshape(-1, 1), self.step(B.item(c, k).reshape(-1, 1), k, method),
             label + ": next estimate solves the next one-row problem")


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, weight=3)
def any_defaults(B):
    """left-out settings, matrices with any number of rows"""
    P = Free(B, natural=True)
    np = B.np
    kw = P.args()
    drop = B.choice("left out", ["nothing", "b", "y", "mu_i", "cov", "data_cov"])
    if drop in kw:
        kw[drop] = None
    if drop == "b":
        P.b = np.zeros((P.m, 1))
    if drop == "y":
        P.y = np.zeros((P.m, 1))
    if drop == "mu_i":
        P.mu = np.zeros((P.p, 1))
    if drop == "cov":
        P.C = np.eye(P.p)
    if drop == "data_cov":
        P.R = np.eye(P.m)
    P.well()
    method = B.choice("method", ["mud", "map", "ls"])
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, kw.pop("b"), **kw)
    r = B.run("solve", L.solve, method=method)
    c = B.item(L.solution_chains, 0)
    B.eq(B.item(c, 0), P.mu, "begins with the prior mean")
    P.chain(c, method, "epoch")
    B.eq(r, B.item(c, P.K), "the result is the last estimate")


@contract("P14", funcs=[F + "iter_lin_solve", I + "__init__", I + "solve"] + LG, weight=3)
def any_entry_point(B):
    """the entry point gives what the problem object gives (any order, any number of epochs)"""
    P = Free(B, natural=B.choice("order", ["given", "natural"]) == "natural")
    kw = P.args()
    drop = B.choice("left out", ["nothing", "y", "mu_i", "cov", "data_cov"])
    if drop in kw:
        kw[drop] = None
    if drop == "cov":
        P.C = B.np.eye(P.p)
    P.well()
    method = B.choice("method", ["mud", "map", "ls"])
    E = B.dim("epochs", num=(1, 3))
    given = P.K is not P.m
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx if given else None, **kw)
    r = B.run("solve", L.solve, num_epochs=E, method=method)
    names = {"y": "y", "mu_i": "mean", "cov": "cov", "data_cov": "data_cov"}
    opt = {names[k]: v for k, v in kw.items() if k != "b" and v is not None}
    if given:
        opt["idx_order"] = P.idx
    if method != "mud" or B.choice("method", ["given", "default"]) == "given":
        opt["method"] = method
    B.eq(B.run("iter_lin_solve", B.mud("funs").iter_lin_solve, P.A, kw["b"], num_epochs=E, **opt), r, "the last estimate of the chain")


@contract("P14", funcs=[I + "__init__", I + "solve"] + LG, weight=3)
def any_calls(B):
    """a further call continues from the last estimate"""
    P = Free(B)
    P.well()
    E, G = B.dim("epochs", num=(1, 3)), B.dim("further epochs", num=(1, 3))
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    r1 = B.run("solve", L.solve, num_epochs=E)
    r2 = B.run("solve again", L.solve, num_epochs=G)
    B.ensure(B.length(L.solution_chains) == E + G, "one chain per epoch")
    B.ensure(B.length(L.epochs) == E + G, "the sub-problems of every epoch are kept")
    B.eq(B.item(B.item(L.solution_chains, E), 0), r1, "the second call begins with the result of the first")
    g = B.index("epoch of the second call", G)
    c = B.item(L.solution_chains, E + g)
    if B.is_true(g > 0):
        B.eq(B.item(c, 0), B.item(B.item(L.solution_chains, E + g - 1), P.K), "begins with the last estimate of the epoch before")
    P.chain(c, "mud", "epoch")
    B.eq(r2, B.item(B.item(L.solution_chains, E + G - 1), P.K), "the result is the last estimate")


@contract("P14", funcs=[F + "performEpoch", F + "mud_sol"], weight=2)
def any_perform_epoch(B):
    natural = B.choice("order", ["given", "natural"]) == "natural"
    P = Free(B, natural)
    P.well()
    form = B.choice("vectors", ["columns", "flat"])
    b, y, mu = (P.b, P.y, P.mu) if form == "columns" else (P.b.ravel(), P.y.ravel(), P.mu.ravel())
    fz = B.freeze(P.A, b, y, mu, P.C)
    c = B.run("performEpoch", B.mud("funs").performEpoch, P.A, b, y, mu, P.C, idx=None if natural else P.idx)
    B.eq(B.item(c, 0), mu, "begins with the mean it is given")
    P.chain(c, "mud", "chain")
    B.unchanged(fz, "arguments are not modified")


@contract("P14", funcs=[F + "iterate", F + "performEpoch"], weight=2)
def any_iterate(B):
    P = Free(B)
    P.well()
    E = B.dim("epochs", num=(1, 4))
    c = B.run("iterate", B.mud("funs").iterate, P.A, P.b, P.y, P.mu, P.C, num_epochs=E, idx=P.idx)
    S = P.K + 1
    B.ensure(B.length(c) == E * S, "one chain per epoch, concatenated")
    e, k = B.index("epoch", E), B.index("step", P.K)
    if B.is_true(e == 0):
        e = 0
        B.eq(B.item(c, 0), P.mu, "begins with the mean it is given")
    else:
        if B.is_true(e == 1):
            e = 1
        B.eq(B.item(c, e * S), B.item(c, e * S - 1), "every epoch begins with the last estimate of the one before")
    if B.is_true(k == 0):
        k = 0
    B.eq(B.item(c, e * S + k + 1).reshape(-1, 1), P.step(B.item(c, e * S + k).reshape(-1, 1), k), "next estimate solves the next one-row problem")


@contract("P14", funcs=[I + "get_errors"], weight=2)
def any_errors(B):
    """any number of epochs of any length"""
    P = Free(B)
    P.well()
    E = B.dim("epochs", num=(1, 3))
    L = B.run("construct", B.mud("base").IterativeLinearProblem, P.A, idx_order=P.idx, **P.args())
    B.run("solve", L.solve, num_epochs=E)
    B.havoc(L.solution_chains)          # whatever the chains are
    ref = B.array("ref", P.p, 1)
    e = B.run("get_errors", L.get_errors, ref if B.choice("reference", ["column", "flat"]) == "column" else ref.ravel())
    B.ensure(B.length(e) == E * P.K, "one error per estimate")
    B.ensure(B.length(L.errors) == E * P.K, "errors are kept on the problem")
    j, k = B.index("epoch", E), B.index("step", P.K)
    d = B.item(B.item(L.solution_chains, j), k + 1) - ref
    B.eq(B.item(e, j * P.K + k), B.sqrt(B.sum(P.p, lambda q: B.el(d, q, 0) * B.el(d, q, 0))), "distance of the estimate to the reference")
