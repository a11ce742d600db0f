# props: P23
"""Pre-processing: principal components and singular values of standardised data."""
from pyvc.contract import contract

M = "mud.preprocessing."


def data(B, lo=3):
    n, p = B.dim("n", num=(lo, 7)), B.dim("p", num=(2, 5))
    return B.array("data", n, p), n, p


def standardised(B, x, n, p):
    """columns shifted by their mean and divided by their standard deviation (constant columns by one)"""
    np = B.np
    m, s = np.mean(x, axis=0), np.std(x, axis=0)
    return B.table((n, p), lambda i, j: (B.el(x, i, j) - B.el(m, j)) / B.ite(B.el(s, j) == 0, 1, B.el(s, j)))


@contract("P23", funcs=[M + "pca"])
def pca_contract(B):
    np = B.np
    x, n, p = data(B)
    kw, opts = {}, {}
    k = 2
    how = B.choice("components", ["default", "given", "by position"])
    if how != "default":
        k = B.dim("k", num=(1, 4))
        kw["n_components"] = k
    for o, v in [("whiten", True), ("svd_solver", "full"), ("tol", 0.5)]:
        if B.choice("option " + o, ["default", "given"]) == "given":
            opts[o] = v
    B.assume(B.land(k <= n, k <= p))
    std = standardised(B, x, n, p)
    B.assume_separated(std, k)
    fz = B.freeze(x)
    f = B.mud("preprocessing").pca
    pos = how == "by position"
    m, tr = B.run("pca", f, x, *([k] if pos else []), **({} if pos else kw), **opts)
    B.unchanged(fz, "data is left unchanged")
    ref = B.lib("sklearn.decomposition").PCA(n_components=k, **opts)
    rt = ref.fit_transform(std)
    B.shape_is(m.components_, (k, p), "as many components as asked for")
    B.shape_is(tr, (n, k), "one column per component")
    vec = B.same_sign(ref.components_, m.components_)
    B.eq(m.components_, vec, "components of the standardised data")
    B.eq(m.explained_variance_, ref.explained_variance_, "explained variances")
    sc = np.sqrt(ref.explained_variance_) if "whiten" in opts else np.ones(k)
    B.eq(tr, ((std - np.mean(std, axis=0)) @ vec.T) / sc, "standardised data projected on the components")


@contract("P23", funcs=[M + "svd"])
def svd_contract(B):
    np = B.np
    x, n, p = data(B)
    kw = {}
    full = B.choice("vectors", ["default", "full", "reduced"])
    if full in ("full", "reduced"):
        kw["full_matrices"] = full == "full"
    std = standardised(B, x, n, p)
    fz = B.freeze(x)
    f = B.mud("preprocessing").svd
    U, s, V = B.run("svd", f, x, **kw)
    B.unchanged(fz, "data is left unchanged")
    if B.symbolic:
        u, t, v = np.linalg.svd(std, full_matrices=full != "reduced")
        B.eq(U, u, "left singular vectors of the standardised data")
        B.eq(s, t, "singular values of the standardised data")
        B.eq(V, v, "right singular vectors of the standardised data")
        return
    r = min(n, p)
    B.shape_is(U, (n, r if full == "reduced" else n), "left singular vectors: the full set, or the reduced one")
    B.shape_is(V, (r if full == "reduced" else p, p), "right singular vectors: the full set, or the reduced one")
    B.eq(s, np.linalg.svd(std, compute_uv=False), "singular values of the standardised data")
    B.eq(U.T @ U, np.eye(U.shape[1]), "orthonormal left vectors")
    B.eq(V @ V.T, np.eye(V.shape[0]), "orthonormal right vectors")
    B.eq((U[:, :r] * s) @ V[:r], std, "decomposition of the standardised data")


@contract("P23", funcs=[M + "pca", M + "svd"])
def rank_checked(B):
    f = B.choice("function", ["pca", "svd"])
    d = B.choice("dimensions", [1, 3, 4])
    x = B.array("data", *[B.dim(f"n{i}", num=(2, 3)) for i in range(d)])
    if B.choice("form", ["array", "list"]) == "list" and d == 1:
        x = B.lst(x)
    o = B.call(getattr(B.mud("preprocessing"), f), x)
    B.raises(o, "data that is not two-dimensional is rejected", ValueError)
