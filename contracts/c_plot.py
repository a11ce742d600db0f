# props: P24
"""Meshes and plotted curves."""
from pyvc.contract import contract

PL, UT, BS = "mud.plot.", "mud.util.", "mud.base."


@contract("P24", funcs=[PL + "build_nd_mesh_grid"], bounded="1 to 3 dimensions (all domains and resolutions)")
def mesh_grid(B):
    np = B.np
    d = B.choice("dimensions", [1, 2, 3])
    dom = B.array("dom", d, 2, real=True)
    form = B.choice("domain", ["array", "list"])
    kw, a = {}, 100
    if B.choice("resolution", ["given", "default"]) == "given":
        a = B.dim("a", lo=2, num=(2, 5))
        kw["aff"] = a
    if form == "list":
        dom_arg = [[B.el(dom, k, 0), B.el(dom, k, 1)] for k in range(d)]
    else:
        dom_arg = dom
    mesh, pts = B.run("build_nd_mesh_grid", B.mud("plot").build_nd_mesh_grid, dom_arg, **kw)
    m = a - 1

    def coord(k, i):
        return B.el(dom, k, 0) + (B.el(dom, k, 1) - B.el(dom, k, 0)) * i / (a - 1)
    B.ensure(len(mesh) == d, "one coordinate array per dimension")
    tot = m if d == 1 else m * m if d == 2 else m * m * m
    B.shape_is(pts, (d, tot), "one column per grid point")
    for k in range(d):
        B.shape_is(mesh[k], (m,) * d, "coordinate arrays over the whole grid")
        B.eq(pts[k, :], mesh[k].ravel(), "points listed in the order of the coordinate arrays")
    # every combination of coordinates is the point at exactly one position: axes are a permutation of the dimensions
    if d == 1:
        B.eq(mesh[0], B.table((m,), lambda i: coord(0, i)), "coordinates evenly spaced over the window, the last end left out")
        return
    for k in range(d):
        i = [B.index(f"i{k}{j}", m) for j in range(d)]
        ax = axis_of(B, mesh, k, d, m)
        B.eq(B.el(mesh[k], *i), coord(k, i[ax]), "coordinates evenly spaced over the window, each along its own axis")


def axis_of(B, mesh, k, d, m):
    """numpy's two mesh orders; the order in use is read off the first coordinate array"""
    if k >= 2:
        return k
    x0 = mesh[0]
    probe = B.same(B.el(x0, *([0] + [B.index("z0", m)] + [0] * (d - 2))), B.el(x0, *([0] * d)))
    return k if probe else 1 - k


@contract("P24", funcs=[PL + "make_2d_normal_mesh", PL + "make_2d_unit_mesh", UT + "make_2d_unit_mesh"])
def square_meshes(B):
    np = B.np
    mod, f = B.choice("function", [("plot", "make_2d_normal_mesh"), ("plot", "make_2d_unit_mesh"), ("util", "make_2d_unit_mesh")])
    kw, N, w = {}, 50, 1
    if B.choice("size", ["given", "default"]) == "given":
        N = B.dim("N", num=(1, 5))
        kw["N"] = N
    if B.choice("window", ["given", "default"]) == "given":
        w = B.real("w", pos=True)
        kw["window"] = w
    X, Y, P = B.run(f, getattr(B.mud(mod), f), **kw)
    lo = -w if "normal" in f else 0

    def at(i):
        return lo + B.ite(N == 1, 0, (w - lo) * i / B.ite(N == 1, 1, N - 1))
    B.eq(X, B.table((N, N), lambda i, j: at(j)), "first coordinate over the window")
    B.eq(Y, B.table((N, N), lambda i, j: at(i)), "second coordinate over the window")
    B.shape_is(P, (N * N, 2), "one row per grid point")
    B.eq(P[:, 0], X.ravel(), "points in the order of the first coordinate array")
    B.eq(P[:, 1], Y.ravel(), "points in the order of the second coordinate array")


def box(B, d):
    np = B.np
    lo, wd = B.array("lo", d, real=True), B.array("wd", d, pos=True, real=True)
    return np.column_stack([lo, lo + wd])


def marginal(B, value, dom, idx, d, m, scaled=True):
    """coordinates and values of the marginal of a density along one coordinate over the grid"""
    np = B.np
    tot = m if d == 1 else m * m if d == 2 else m * m * m
    pts = np.column_stack([B.table((m,) * d, lambda *i, k=k: B.el(dom, k, 0) + (B.el(dom, k, 1) - B.el(dom, k, 0)) * i[k] / m).reshape(tot) for k in range(d)])
    v = value(pts).reshape((m,) * d)
    ax = tuple(k for k in range(d) if k != idx)
    y = np.sum(v, axis=ax) if ax else v
    step = (B.el(dom, idx, 1) - B.el(dom, idx, 0)) / m
    x = B.table((m,), lambda i: B.el(dom, idx, 0) + step * i)
    return x, y / (np.sum(y) * step) if scaled else y


def plots(B, name):
    """calls recorded on the axes given, or ("*.plot") on any axes"""
    if name.startswith("*"):
        return [e for e in B.events() if e[0] == "call" and e[1].rsplit(".", 1)[-1] == name[2:]]
    return [e for e in B.events() if e[0] == "call" and e[1] == name]


def curve(B, e, x, y, opts, label):
    B.ensure(len(e[2]) == 2, label + ": one curve")
    B.eq(e[2][0], x, label + ": against the coordinate's values")
    B.eq(e[2][1], y, label + ": marginal scaled to unit integral")
    for k, v in opts.items():
        B.ensure(k in e[3] and e[3][k] == v, label + ": options")


@contract("P24", funcs=[PL + "plot_dist", PL + "build_nd_mesh_grid"], bounded="1 to 3 dimensions (all domains and resolutions)", weight=2)
def drawn_distribution(B):
    np = B.np
    d = B.choice("dimensions", [1, 2, 3])
    idx = B.choice("coordinate", [0, 1, 2][:d] if B.symbolic else [0, 1, 2])
    B.assume(idx < d)
    dom = box(B, d)
    m = B.dim("m", lo=2, num=(2, 4))
    a = m + 1
    src = B.choice("source", ["pdf", "kde", "default"])
    kw = {} if src == "default" else {"source": src}
    if B.choice("axes", ["given", "none"]) == "none":
        B.recorded_axes()
    else:
        kw["ax"] = B.recorder("ax")
    if src == "pdf":
        dist = B.dist("g", pos=True)
        value = lambda p: np.prod(dist.pdf(p), axis=1)
    else:
        dist = B.stats.gaussian_kde(B.array("data", d, B.dim("n", lo=2, num=(d + 2, 6))))
        value = lambda p: dist(p.T)
    fz = B.freeze(dom)
    f = B.mud("plot").plot_dist
    n0 = len(plots(B, "*.plot"))
    B.run("plot_dist", f, dist, dom, idx=idx, aff=a, color="r", **kw)
    B.unchanged(fz, "domain is not modified")
    x, y = marginal(B, value, dom, idx, d, m)
    es = plots(B, "*.plot")[n0:]
    if "ax" in kw:
        B.ensure(len(es) == len(plots(B, "ax.plot")), "drawn on the axes given")
    B.ensure(len(es) == 1, "one curve is drawn")
    curve(B, es[0], x, y, {"color": "r"}, "curve")


@contract("P24", funcs=[PL + "plot_dist"])
def unknown_source(B):
    o = B.call(B.mud("plot").plot_dist, B.dist("g", pos=True), box(B, 1), ax=B.recorder("ax"), aff=4, source=B.choice("source", ["", "PDF", "gkde"]))
    B.raises(o, "unknown sources are rejected", ValueError)
    B.ensure(not plots(B, "ax.plot"), "nothing is drawn")


@contract("P24", funcs=[PL + "plot_vert_line"])
def vertical_line(B):
    x = B.real("x")
    ax = B.recorder("ax")
    kw = {}
    if B.choice("limit", ["none", "given"]) == "given":
        kw["ylim"] = B.real("y")
    B.run("plot_vert_line", B.mud("plot").plot_vert_line, ax, x, color="g", **kw)
    e, = plots(B, "ax.plot")
    lo, hi = B.recorded_limits()
    for got, want in zip(e[2][0] + e[2][1], [x, x, lo, kw.get("ylim", hi)]):
        B.eq(got, want, "vertical line at the value, over the height of the axes")
    B.ensure(e[3].get("color") == "g", "options")


# ------------------------------------------------------------------ curves of the problem classes

DP, BP, LG, IP = BS + "DensityProblem.", BS + "BayesProblem.", BS + "LinearGaussianProblem.", BS + "IterativeLinearProblem."


def kde_of(B, data, w=None):
    k = B.stats.gaussian_kde(data.T, weights=w)
    return lambda p: k(p.T)


def product(B, dist):
    return lambda p: B.np.prod(dist.pdf(p), axis=1)


def draw(B, D, how, name, wanted, ax, **kw):
    """switch every curve but the wanted ones off, label the others, and run"""
    labels = {}
    for opt, on in wanted:
        if on:
            labels[opt] = {"label": "curve of " + opt, "color": "m"}
            kw[opt] = dict(labels[opt])
        else:
            kw[opt] = None
    if ax:
        kw["ax"] = B.recorder("ax")
    else:
        B.recorded_axes()
    which = "ax.plot" if ax else "*.plot"
    n0 = len(plots(B, which))
    B.run(name, how, **kw)
    es = plots(B, which)[n0:]
    on = [opt for opt, x in wanted if x]
    B.ensure(len(es) == len(on), f"{name}: one curve for each of those asked for")
    by = {}
    for opt in on:
        es1 = [e for e in es if e[3].get("label") == "curve of " + opt]
        B.ensure(len(es1) == 1, f"{name}: curves carry the options given for them")
        by[opt] = es1[0]
        B.ensure(by[opt][3].get("color") == "m", f"{name}: curves carry the options given for them")
        B.ensure(kw[opt] == labels[opt], f"{name}: options are unchanged")
    return by


def solved_density(B, p, d, weights, solved=True):
    n = B.dim("n", lo=2, num=(6, 9))
    X, y = B.array("X", n, p), B.array("y", n, d)
    w = B.array("w", n, pos=True) if weights else None
    dom = box(B, p)
    D = B.run("construct", B.mud("base").DensityProblem, X, y, weights=w, domain=dom)
    fi, fo, fp = B.dist("in", pos=True), B.dist("ob", pos=True), B.dist("pr", pos=True)
    B.run("set_initial", D.set_initial, fi)
    B.run("set_observed", D.set_observed, fo)
    return D, n, X, y, w, dom, fi, fo, fp


@contract("P24", funcs=[DP + "plot_param_space", PL + "plot_dist", PL + "plot_vert_line", DP + "estimate"],
          bounded="1 or 2 parameters (all samples, weights, domains, resolutions)", weight=2)
def parameter_curves(B):
    np = B.np
    p = B.choice("parameters", [1, 2])
    idx = B.choice("coordinate", [0, 1][:p] if B.symbolic else [0, 1])
    B.assume(idx < p)
    D, n, X, y, w, dom, fi, fo, fp = solved_density(B, p, 1, B.choice("weights", [False, True]))
    B.run("set_predicted", D.set_predicted, fp)
    B.run("fit", D.fit)
    wv = w if w is not None else np.ones(n)
    r = np.prod(fo.pdf(y), axis=1) / np.prod(fp.pdf(y), axis=1)
    m = B.dim("m", lo=2, num=(2, 4))
    kw = {"aff": m + 1, "param_idx": idx}
    if B.choice("range", ["given", "domain"]) == "given":
        lo, wd = B.array("rlo", p), B.array("rwd", p, pos=True)
        kw["x_range"] = rng = np.column_stack([lo, lo + wd])
    else:
        pad = B.choice("padding", ["default", "given"])
        f = 0.05
        if pad == "given":
            f = kw["pad_ratio"] = B.real("pad", pos=True)
        side = (dom[:, 1] - dom[:, 0]) * f
        rng = np.column_stack([dom[:, 0] - side, dom[:, 1] + side])
    what = B.choice("curves", ["initial", "updated", "weighted", "estimate", "true value"])
    tv = None
    if what == "true value":
        tv = B.array("tv", p)
        kw["true_val"] = tv if B.choice("true value form", ["array", "list"]) == "array" else [B.el(tv, k) for k in range(p)]
    if what in ("estimate", "true value") and B.choice("height", ["axes", "given"]) == "given":
        kw["ylim"] = B.real("top")
    wanted = [("in_opts", what == "initial"), ("up_opts", what == "updated"), ("win_opts", what == "weighted"),
              ("mud_opts", what == "estimate"), ("true_opts", what == "true value")]
    by = draw(B, D, D.plot_param_space, "plot_param_space", wanted, True, **kw)
    if what == "initial":
        x, v = marginal(B, product(B, fi), rng, idx, p, m)
        curve(B, by["in_opts"], x, v, {}, "initial density")
    elif what == "updated":
        x, v = marginal(B, kde_of(B, X, r * wv), rng, idx, p, m)
        curve(B, by["up_opts"], x, v, {}, "kernel estimate of the samples weighted by ratio times weight")
    elif what == "weighted":
        x, v = marginal(B, kde_of(B, X, wv), rng, idx, p, m)
        curve(B, by["win_opts"], x, v, {}, "kernel estimate of the samples with their initial weights")
    else:
        e = by["mud_opts" if what == "estimate" else "true_opts"]
        at = D.estimate()[idx] if what == "estimate" else B.el(tv, idx)
        lo, hi = B.recorded_limits()
        for got, want in zip(list(e[2][0]) + list(e[2][1]), [at, at, lo, kw.get("ylim", hi)]):
            B.eq(got, want, f"{what} is marked on the chosen coordinate")


@contract("P24", funcs=[DP + "plot_obs_space", PL + "plot_dist"], bounded="1 or 2 observables (all samples, weights, ranges, resolutions)", weight=2)
def observable_curves(B):
    np = B.np
    d = B.choice("observables", [1, 2])
    idx = B.choice("coordinate", [0, 1][:d] if B.symbolic else [0, 1])
    B.assume(idx < d)
    D, n, X, y, w, dom, fi, fo, fp = solved_density(B, 1, d, B.choice("weights", [False, True]))
    wv = w if w is not None else np.ones(n)
    pk = B.choice("predicted", ["kernel estimate", "scipy distribution"])
    if pk == "kernel estimate":
        B.run("set_predicted", D.set_predicted)
        fp = B.stats.gaussian_kde(y.T, weights=wv)
        pr = kde_of(B, y, wv)
    else:
        fp = B.frozen("norm", B.array("loc", d), B.array("scale", d, pos=True))
        B.run("set_predicted", D.set_predicted, fp)
        pr = product(B, fp)
    if not B.symbolic and pk != "kernel estimate":
        B.assume(np.min(np.prod(fp.pdf(y), axis=1)) > 1e-9)
    B.run("fit", D.fit)
    r = np.prod(fo.pdf(y), axis=1) / (fp(y.T) if pk == "kernel estimate" else np.prod(fp.pdf(y), axis=1))
    m = B.dim("m", lo=2, num=(2, 4))
    kw = {"aff": m + 1, "obs_idx": idx}
    lo, wd = B.array("rlo", d), B.array("rwd", d, pos=True)
    kw["y_range"] = rng = np.column_stack([lo, lo + wd])
    what = B.choice("curves", ["observed", "predicted", "push-forward"])
    wanted = [("ob_opts", what == "observed"), ("pr_opts", what == "predicted"), ("pf_opts", what == "push-forward")]
    by = draw(B, D, D.plot_obs_space, "plot_obs_space", wanted, True, **kw)
    if what == "observed":
        x, v = marginal(B, product(B, fo), rng, idx, d, m)
        curve(B, by["ob_opts"], x, v, {}, "observed density")
    elif what == "predicted":
        x, v = marginal(B, pr, rng, idx, d, m)
        curve(B, by["pr_opts"], x, v, {}, "predicted density")
    else:
        x, v = marginal(B, kde_of(B, y, r * wv), rng, idx, d, m)
        curve(B, by["pf_opts"], x, v, {}, "kernel estimate of the predictions weighted by ratio times weight")


@contract("P24", funcs=[DP + "plot_param_space", DP + "plot_obs_space"], bounded="1 parameter and 1 observable")
def all_curves(B):
    """every curve at once: one per kind, and the default options"""
    D, n, X, y, w, dom, fi, fo, fp = solved_density(B, 1, 1, True)
    B.run("set_predicted", D.set_predicted)
    B.run("fit", D.fit)
    if B.choice("space", ["parameters", "observables"]) == "parameters":
        wanted = [(k, True) for k in ("in_opts", "up_opts", "win_opts", "mud_opts", "true_opts")]
        draw(B, D, D.plot_param_space, "plot_param_space", wanted, B.choice("axes", [True, False]), aff=4, true_val=[0.5])
    else:
        wanted = [(k, True) for k in ("ob_opts", "pr_opts", "pf_opts")]
        draw(B, D, D.plot_obs_space, "plot_obs_space", wanted, B.choice("axes", [True, False]), aff=4)


@contract("P24", funcs=[BP + "plot_param_space", PL + "plot_dist", PL + "plot_vert_line"], bounded="1 or 2 parameters", weight=2)
def posterior_curves(B):
    np = B.np
    p = B.choice("parameters", [1, 2])
    idx = B.choice("coordinate", [0, 1][:p] if B.symbolic else [0, 1])
    B.assume(idx < p)
    n = B.dim("n", lo=2, num=(6, 9))
    X, y = B.array("X", n, p), B.array("y", n, 1)
    dom = box(B, p)
    D = B.run("construct", B.mud("base").BayesProblem, X, y, domain=dom)
    fp, fl = B.dist("prior", pos=True), B.dist("ll", pos=True)
    log = B.choice("log", [False, True])
    B.run("set_prior", D.set_prior, fp)
    B.run("set_likelihood", D.set_likelihood, fl, log=log)
    m = B.dim("m", lo=2, num=(2, 4))
    kw = {"aff": m + 1, "param_idx": idx}
    rng = dom
    if B.choice("range", ["given", "domain"]) == "given":
        lo, wd = B.array("rlo", p), B.array("rwd", p, pos=True)
        kw["x_range"] = rng = np.column_stack([lo, lo + wd])
    what = B.choice("curves", ["prior", "posterior", "estimate", "true value"])
    if what == "true value":
        tv = kw["true_val"] = B.array("tv", p)
    wanted = [("pr_opts", what == "prior"), ("ps_opts", what == "posterior"), ("map_opts", what == "estimate"), ("true_opts", what == "true value")]
    by = draw(B, D, D.plot_param_space, "plot_param_space", wanted, True, **kw)
    if what == "prior":
        x, v = marginal(B, product(B, fp), rng, idx, p, m)
        curve(B, by["pr_opts"], x, v, {}, "prior density")
    elif what == "posterior":
        if log:
            ps = np.log(np.prod(fp.pdf(X), axis=1)) + np.sum(fl.logpdf(y), axis=1)
            ps = np.exp(ps - np.max(ps))
        else:
            ps = np.prod(fp.pdf(X), axis=1) * np.prod(fl.pdf(y), axis=1)
        x, v = marginal(B, kde_of(B, X, ps), rng, idx, p, m)
        curve(B, by["ps_opts"], x, v, {}, "kernel estimate of the samples weighted by the posterior")
    else:
        e = by["map_opts" if what == "estimate" else "true_opts"]
        at = D.estimate()[idx] if what == "estimate" else B.el(tv, idx)
        lo, hi = B.recorded_limits()
        for got, want in zip(list(e[2][0]) + list(e[2][1]), [at, at, lo, hi]):
            B.eq(got, want, f"{what} is marked on the chosen coordinate")


@contract("P24", funcs=[BP + "plot_obs_space"], bounded="1 or 2 observables", weight=2)
def likelihood_curves(B):
    np = B.np
    d = B.choice("observables", [1, 2])
    idx = B.choice("coordinate", [0, 1][:d] if B.symbolic else [0, 1])
    B.assume(idx < d)
    n = B.dim("n", lo=2, num=(6, 9))
    X, y = B.array("X", n, 1), B.array("y", n, d)
    D = B.run("construct", B.mud("base").BayesProblem, X, y, domain=box(B, 1))
    fp, fl = B.dist("prior", pos=True), B.dist("ll", pos=True)
    log = B.choice("log", [False, True])
    B.run("set_prior", D.set_prior, fp)
    B.run("set_likelihood", D.set_likelihood, fl, log=log)
    B.run("fit", D.fit)
    m = B.dim("m", lo=2, num=(2, 4))
    kw = {"aff": m + 1, "obs_idx": idx}
    if B.choice("range", ["given", "default"]) == "given":
        lo, wd = B.array("rlo", d), B.array("rwd", d, pos=True)
        kw["y_range"] = rng = np.column_stack([lo, lo + wd])
    else:
        rng = np.array([[-1, 1]] * d)
    what = B.choice("curves", ["likelihood", "push-forward"])
    by = draw(B, D, D.plot_obs_space, "plot_obs_space", [("ll_opts", what == "likelihood"), ("pf_opts", what == "push-forward")], True, **kw)
    if what == "likelihood":
        x, v = marginal(B, product(B, fl), rng, idx, d, m, scaled=False)
        e = by["ll_opts"]
    else:
        if log:
            ps = np.log(np.prod(fp.pdf(X), axis=1)) + np.sum(fl.logpdf(y), axis=1)
            ps = np.exp(ps - np.max(ps))
        else:
            ps = np.prod(fp.pdf(X), axis=1) * np.prod(fl.pdf(y), axis=1)
        x, v = marginal(B, kde_of(B, y, ps), rng, idx, d, m, scaled=False)
        e = by["pf_opts"]
    B.eq(e[2][0], x, "against the observable's values")
    got = e[2][1]
    B.eq(got * np.sum(v), v * np.sum(got), f"{what}: marginal along the chosen observable, up to scale")


@contract("P24", funcs=[DP + "plot_qoi", DP + "plot_params_2d"])
def chosen_columns(B):
    p, q = B.dim("parameters", lo=2, num=(2, 4)), B.dim("observables", num=(1, 4))
    n = B.dim("n", lo=2, num=(3, 6))
    X, y = B.array("X", n, p), B.array("y", n, q)
    D = B.run("construct", B.mud("base").DensityProblem, X, y)
    ax = B.recorder("ax")
    if B.choice("plot", ["observables", "parameters"]) == "observables":
        i, j = B.index("first", q), B.index("second", q)
        B.run("plot_qoi", D.plot_qoi, idx_x=i, idx_y=j, ax=ax, s=3)
        e, = plots(B, "ax.scatter")
        A = y
        B.ensure(e[3].get("s") == 3, "options")
    else:
        i, j, k = B.index("first", p), B.index("second", p), B.index("third", q)
        cont = B.choice("contours", [False, True])
        B.recorded_axes()
        bar, b0 = B.choice("colour bar", [False, True]), len(plots(B, "*.colorbar"))
        opts = {"c": B.array("c", n)} if B.choice("colours", ["default", "given"]) == "given" else {}
        B.run("plot_params_2d", D.plot_params_2d, x_1=i, x_2=j, y=k, ax=ax, contours=cont, colorbar=bar, s=4, **opts)
        B.ensure(len(plots(B, "*.colorbar")) - b0 == (1 if bar else 0), "a colour bar when asked for")
        e, = plots(B, "ax.scatter")
        A = X
        B.ensure(e[3].get("s") == 4, "options")
        B.eq(e[3]["c"], opts.get("c", y[:, k]), "coloured by the chosen observable, or as given")
        t = plots(B, "ax.tricontour")
        B.ensure(len(t) == (1 if cont else 0), "contours when asked for")
        if cont:
            B.eq(t[0][2][0], X[:, i], "contours over the first chosen column")
            B.eq(t[0][2][1], X[:, j], "contours over the second chosen column")
            B.eq(t[0][2][2], y[:, k], "contours of the chosen observable")
    B.eq(e[2][0], A[:, i], "first chosen column")
    B.eq(e[2][1], A[:, j], "second chosen column")


@contract("P24", funcs=[DP + "plot_params_2d", DP + "plot_qoi"])
def absent_columns(B):
    """columns that are not there are reported and nothing is drawn"""
    one = B.choice("parameters", ["one", "several"]) == "one"
    p, q = 1 if one else B.dim("p", lo=2, num=(2, 4)), B.dim("observables", num=(1, 4))
    n = B.dim("n", lo=2, num=(3, 6))
    D = B.run("construct", B.mud("base").DensityProblem, B.array("X", n, p), B.array("y", n, q))
    ax = B.recorder("ax")
    what = B.choice("beyond", ["first", "second", "third"])
    beyond = {"first": p, "second": p, "third": q}[what] + B.choice("by", [0, 1, 5])
    kw = {"first": dict(x_1=beyond), "second": dict(x_2=beyond), "third": dict(x_2=p - 1, y=beyond)}[what]
    o = B.call(D.plot_params_2d, ax=ax, **kw)
    B.raises(o, "columns that are not there are reported", AttributeError if one else ValueError)
    B.ensure(not plots(B, "ax.scatter"), "nothing is drawn")


def direction_contract(B):
    """null_space of a non-zero 1 x 2 row (its contract: P18): the unit vector orthogonal to it,
    either way round"""
    def null(row, rcond=None):
        B.shape_is(row, (1, 2), "rows are passed one at a time")
        r0, r1 = B.el(row, 0, 0), B.el(row, 0, 1)
        sg = B.ite(B.fun("orientation", r0, r1) > 0, 1, -1)
        nn = B.sqrt(r0 * r0 + r1 * r1)
        return B.np.array([[-sg * r1 / nn], [sg * r0 / nn]])
    B.callee("util", "null_space", null)


def lines(B, es, A, rows, ref, w, label):
    B.ensure(len(es) == len(rows), label + ": one line for each row")
    for e, q in zip(es, rows):
        (x0, x1), (y0, y1) = e[2][0], e[2][1]
        B.eq((x0 + x1) / 2, B.el(ref, 0), label + ": centred at the reference point")
        B.eq((y0 + y1) / 2, B.el(ref, 1), label + ": centred at the reference point")
        B.eq(B.el(A, q, 0) * (x1 - x0) + B.el(A, q, 1) * (y1 - y0), 0, label + ": along the null space of its row")
        B.eq((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0), 4 * w * w, label + ": of the asked length")


@contract("P24", funcs=[LG + "plot_contours", PL + "plot_contours"], bounded="up to 3 rows, 2 parameters (all values)")
def contour_lines(B):
    np = B.np
    k = B.choice("rows", [1, 3])
    A = B.array("A", k, 2)
    for q in range(k):
        B.assume(B.el(A, q, 0) * B.el(A, q, 0) + B.el(A, q, 1) * B.el(A, q, 1) > (0 if B.symbolic else 1e-2))
    sub = B.choice("subset", ["default", "list", "array"])
    rows = list(range(k)) if sub == "default" or k == 1 else [2, 0]
    ref = B.array("ref", 2)
    w = 1
    kw = {}
    if B.choice("length", ["default", "given"]) == "given":
        w = kw["w"] = B.real("w", pos=True)
    if sub != "default":
        kw["subset"] = rows if sub == "list" else np.array(rows)
    direction_contract(B)
    fz = B.freeze(A, ref)
    if B.choice("function", ["method", "function"]) == "method":
        L = B.run("construct", B.mud("base").LinearGaussianProblem, A, np.zeros((k, 1)), np.ones((k, 1)))
        note = B.choice("annotate", [False, True])
        given = note and B.choice("notes", ["at the lines", "given"]) == "given"
        if given:
            kw.update(note_loc=(0.1, 0.2), annotate_opts={"fontsize": 3}, plot_opts={"color": "r"})
        B.run("plot_contours", L.plot_contours, ref=ref, ax=B.recorder("ax"), annotate=note, label="row {i}", **kw)
        lines(B, plots(B, "ax.plot"), A, rows, ref, w, "contours")
        an = plots(B, "ax.annotate")
        if given:
            B.ensure(all(tuple(e[2][1]) == (0.1, 0.2) and e[3] == {"fontsize": 3} for e in an), "notes where and as asked for")
            B.ensure(all(e[3] == {"color": "r"} for e in plots(B, "ax.plot")), "line options")
            B.ensure(kw["annotate_opts"] == {"fontsize": 3} and kw["plot_opts"] == {"color": "r"}, "options are unchanged")
        elif note:
            for e, l in zip(an, plots(B, "ax.plot")):
                on = [B.land(e[2][1][0] == l[2][0][c], e[2][1][1] == l[2][1][c]) for c in (0, 1)]
                B.ensure(B.lor(*on), "notes at an end of their lines")
        B.ensure([e[2][0] for e in an] == ([f"row {q + 1}" for q in rows] if note else []), "annotations name their rows")
    else:
        B.recorded_axes()
        f = B.mud("plot").plot_contours
        n0 = len(plots(B, "*.plot"))
        B.run("plot_contours", f, A, ref, **kw)
        lines(B, plots(B, "*.plot")[n0:], A, rows, ref, w, "contours")
        B.ensure([e[2][0] for e in plots(B, "*.annotate")] == [f"{q + 1}" for q in rows], "annotations name their rows")
    B.unchanged(fz, "map and reference are unchanged")


def line_at(B, e, A, q, ref, w, label):
    """the line e runs through ref along the null space of row q of A"""
    lines(B, [e], A, [q], ref, w, label)


def map_with_rows(B, k):
    A = B.array("A", k, 2)
    if not B.symbolic:
        for q in range(k):
            B.assume(A[q, 0] ** 2 + A[q, 1] ** 2 > 1e-2)
    return A


@contract("P24", funcs=[LG + "plot_contours", PL + "plot_contours"])
def any_contours(B):
    """maps with any number of rows, subsets of any length"""
    np = B.np
    k = B.dim("rows", num=(1, 4))
    A = map_with_rows(B, k)
    ref = B.array("ref", 2)
    w = B.real("w", pos=True)
    direction_contract(B)
    if B.choice("subset", ["default", "given"]) == "given":
        q = B.dim("lines", num=(1, 4))
        sub = B.idx_array("subset", q, k)
        kw = {"subset": sub}
    else:
        q, sub, kw = k, np.arange(k), {}
    i = B.index("line", q)
    r = sub[i]
    B.assume(B.el(A, r, 0) * B.el(A, r, 0) + B.el(A, r, 1) * B.el(A, r, 1) > 0)
    if B.choice("function", ["method", "function"]) == "method":
        L = B.run("construct", B.mud("base").LinearGaussianProblem, A, np.zeros((k, 1)), np.ones((k, 1)))
        B.run("plot_contours", L.plot_contours, ref=ref, ax=B.recorder("ax"), w=w, **kw)
        es, n0 = B.calls("ax.plot"), 0
    else:
        B.recorded_axes()
        f = B.mud("plot").plot_contours
        n0 = len(plots(B, "*.plot"))
        B.run("plot_contours", f, A, ref, w=w, **kw)
        es = B.calls("*.plot")
    B.ensure(B.length(es) == n0 + q, "contours: one line for each row")
    line_at(B, B.item(es, n0 + i), A, r, ref, w, "contours")


@contract("P24", funcs=[LG + "plot_sol", LG + "solve"])
def solution_points(B):
    np = B.np
    from contracts import c_linear
    P = c_linear.Lin(B)
    p = B.dim("parameters", lo=2, num=(2, 4))
    P.p, P.A, P.mu, P.C = p, B.array("A2", P.m, p), B.array("mu2", p, 1), B.spd("C2", p)
    B.well(P.A @ P.C @ P.A.T, lim=1e5)
    L = P.make()
    kw = {}
    point = B.choice("point", ["default", "mud", "map", "ls", "initial"])
    if B.choice("solved before", [False, True]):
        B.run("earlier solve", L.solve, method="all", output_dim=1)
    if point != "default":
        kw["point"] = point
    meth = "mud" if point == "default" else point
    if B.choice("options", ["default", "given"]) == "given":
        po, lo, ao = {"color": "r"}, {"color": "g"}, {"fontsize": 3}
        kw.update(pt_opts=po, ln_opts=lo, annotate_opts=ao)
    note = B.choice("note", ["none", "label", "label at"])
    if note != "none":
        kw["label"] = "sol"
    if note == "label at":
        kw["note_loc"] = (0.1, 0.2)
    B.run("plot_sol", L.plot_sol, ax=B.recorder("ax"), **kw)
    x = P.mu if meth == "initial" else L.solve(method=meth)
    e, = plots(B, "ax.scatter")
    B.eq(np.ravel(e[2][0]), x[0, :], "the point of the method asked for")
    B.eq(np.ravel(e[2][1]), x[1, :], "the point of the method asked for")
    B.ensure(e[3].get("label") == meth and ("pt_opts" not in kw or e[3].get("color") == "r"), "point options")
    t = plots(B, "ax.plot")
    B.ensure(len(t) == (0 if meth == "initial" else 1), "a line from the initial mean to solutions")
    if t:
        for got, want in zip(list(t[0][2][0]) + list(t[0][2][1]), [B.el(P.mu, 0, 0), B.el(x, 0, 0), B.el(P.mu, 1, 0), B.el(x, 1, 0)]):
            B.eq(got, want, "a line from the initial mean to solutions")
        B.ensure("ln_opts" not in kw or t[0][3] == {"color": "g"}, "line options")
    an = plots(B, "ax.annotate")
    B.ensure([a[2][0] for a in an] == (["sol"] if note != "none" else []), "labelled when asked for")
    if note == "label at":
        B.ensure(tuple(an[0][2][1]) == (0.1, 0.2), "label where asked for")
    if "pt_opts" in kw:
        B.ensure((po, lo, ao) == ({"color": "r"}, {"color": "g"}, {"fontsize": 3}), "options are unchanged")


@contract("P24", funcs=[LG + "plot_fun_contours", UT + "make_2d_unit_mesh"], bounded="2 parameters")
def functional_contours(B):
    np = B.np
    from contracts import c_linear
    P = c_linear.Lin(B)
    P.p, P.A, P.mu, P.C = 2, B.array("A2", P.m, 2), B.array("mu2", 2, 1), B.spd("C2", 2)
    L = P.make()
    N = B.dim("N", lo=2, num=(2, 4))
    r = B.real("r", pos=True)
    if not B.symbolic:
        B.assume(P.m <= 2)
    B.well(P.A @ P.C @ P.A.T, lim=1e4)
    terms = B.choice("terms", ["dc", "data", "reg", "bayes"])
    kw = {"N": N, "r": r}
    if B.choice("mesh", ["given", "default"]) == "given":
        kw["mesh"] = M = B.array("M", N * N, 2)
    else:
        M = B.mud("util").make_2d_unit_mesh(N, r)[2]
    B.run("plot_fun_contours", L.plot_fun_contours, ax=B.recorder("ax"), terms=terms, colors="k", **kw)
    want = L.compute_functionals(M, terms=terms)
    e, = plots(B, "ax.contour")
    i, j = B.index("i", N), B.index("j", N)
    for k in range(3):
        B.shape_is(e[2][k], (N, N), "values over the mesh")
    B.eq(B.el(e[2][0], i, j), B.el(M, i * N + j, 0), "first coordinate")
    B.eq(B.el(e[2][1], i, j), B.el(M, i * N + j, 1), "second coordinate")
    B.eq(e[2][2].ravel(), np.ravel(want), "functional at the mesh points")
    B.ensure(e[3] == {"colors": "k"}, "options")


@contract("P24", funcs=[IP + "plot_chain", PL + "plotChain", LG + "plot_contours"], bounded="chains of up to 3 points, 2 parameters")
def plotted_chains(B):
    np = B.np
    k = B.choice("length", [1, 3])
    direction_contract(B)
    pts = [B.array(f"x{i}", 2, 1) for i in range(k)]
    A = B.array("A", 2, 2)
    for q in range(2):
        B.assume(B.el(A, q, 0) * B.el(A, q, 0) + B.el(A, q, 1) * B.el(A, q, 1) > (0 if B.symbolic else 1e-2))
    ref = B.array("ref", 2, 1)
    if B.choice("function", ["method", "function"]) == "function":
        f = B.mud("plot").plotChain
        B.recorded_axes()
        n0, s0, chains, rows = len(plots(B, "*.plot")), len(plots(B, "*.scatter")), [pts], []
        B.run("plotChain", f, pts, ref)
    else:
        L = B.run("construct", B.mud("base").IterativeLinearProblem, A, np.zeros((2, 1)), np.ones((2, 1)))
        chains = [pts, [p + 1 for p in pts]] if B.choice("chains", [1, 2]) == 2 else [pts]
        L.solution_chains = chains
        rows = list(L.idx_order)
        n0, s0 = len(plots(B, "*.plot")), len(plots(B, "*.scatter"))
        kw = {}
        if B.choice("options", ["default", "given"]) == "given":
            kw = {"plot_opts": {"color": "g"}, "annotate": True, "label": "row {i}"}
        B.run("plot_chain", L.plot_chain, ref, ax=B.recorder("ax"), **kw)
        if kw:
            B.ensure(all(e[3] == {"color": "g"} for e in plots(B, "*.plot")[n0 + k * len(chains):]), "contour options")
            B.ensure([e[2][0] for e in plots(B, "ax.annotate")] == [f"row {q + 1}" for q in rows], "contour labels")
    es = plots(B, "*.plot")[n0:]
    B.ensure(len(es) == k * len(chains) + len(rows), "one segment per step")
    for c, ch in enumerate(chains):
        for i in range(k):
            e = es[c * k + i]
            for d in range(2):
                B.eq(e[2][d][0], ch[max(i - 1, 0)][d, 0], "segments join consecutive points")
                B.eq(e[2][d][1], ch[i][d, 0], "segments join consecutive points")
    lines(B, [("call", "", ([x[0][0] if hasattr(x[0], "shape") and x[0].shape else x[0], x[1][0] if hasattr(x[1], "shape") and x[1].shape else x[1]],
                            [y[0][0] if hasattr(y[0], "shape") and y[0].shape else y[0], y[1][0] if hasattr(y[1], "shape") and y[1].shape else y[1]]), {})
              for _, _, (x, y), _ in [(e[0], e[1], e[2][:2], e[3]) for e in es[k * len(chains):]]], A, rows, ref[:, 0], 1, "contours")
    sc = plots(B, "*.scatter")[s0:]
    want = []
    for ch in chains:
        want += [ch[0], ch[-1], ref]
    if not rows:
        want = [pts[0], ref]
    B.ensure(len(sc) == len(want), "start, end and reference are marked")
    for e, x in zip(sc, want):
        B.eq(np.ravel(e[2][0]), x[0, :], "start, end and reference are marked")
        B.eq(np.ravel(e[2][1]), x[1, :], "start, end and reference are marked")


@contract("P24", funcs=[PL + "plotChain"])
def any_plotted_chain(B):
    """a chain of any length"""
    k = B.dim("points", num=(1, 5))
    pts = B.arrays("x", k, 2, 1)
    ref = B.array("ref", 2, 1)
    B.recorded_axes()
    f = B.mud("plot").plotChain
    n0, s0 = len(plots(B, "*.plot")), len(plots(B, "*.scatter"))
    B.run("plotChain", f, pts, ref)
    es, sc = B.calls("*.plot"), B.calls("*.scatter")
    segments(B, es, n0, k, pts)
    B.ensure(B.length(es) == n0 + k, "one segment per step")
    B.ensure(B.length(sc) == s0 + 2, "start and reference are marked")
    for e, x in ((B.item(sc, s0), B.item(pts, 0)), (B.item(sc, s0 + 1), ref)):
        marked(B, e, x)


@contract("P24", funcs=[IP + "plot_chain", LG + "plot_contours"], weight=2)
def any_plotted_chains(B):
    """any number of chains of any length, maps with any number of rows"""
    np = B.np
    m, K, E = B.dim("rows", num=(1, 3)), B.dim("steps", num=(1, 3)), B.dim("chains", num=(1, 3))
    A = map_with_rows(B, m)
    direction_contract(B)
    order = B.idx_array("order", K, m)
    L = B.run("construct", B.mud("base").IterativeLinearProblem, A, np.zeros((m, 1)), np.ones((m, 1)), idx_order=order)
    B.run("solve", L.solve, num_epochs=E)
    B.havoc(L.solution_chains)          # whatever the chains are
    ref = B.array("ref", 2, 1)
    if B.choice("reference", ["column", "flat"]) == "flat":
        ref = ref.ravel()
    j, k, i = B.index("chain", E), B.index("line", K), B.index("step", K + 1)
    r = order[k]
    B.assume(B.el(A, r, 0) * B.el(A, r, 0) + B.el(A, r, 1) * B.el(A, r, 1) > 0)
    chain = B.item(L.solution_chains, j)
    B.run("plot_chain", L.plot_chain, ref, ax=B.recorder("ax"))
    es, sc = B.calls("ax.plot"), B.calls("ax.scatter")
    B.ensure(B.length(es) == E * (K + 1) + K, "one segment per step, one line for each row")
    e = B.item(es, j * (K + 1) + i)
    before = 0 if B.is_true(i == 0) else i - 1
    for d in range(2):
        B.eq(e[2][d][0], B.item(chain, before)[d, 0], "segments join consecutive points")
        B.eq(e[2][d][1], B.item(chain, i)[d, 0], "segments join consecutive points")
    B.ensure(B.length(sc) == 3 * E, "start, end and reference are marked")
    for n, x in enumerate((B.item(chain, 0), B.item(chain, K), ref.reshape(-1, 1))):
        marked(B, B.item(sc, 3 * j + n), x)
    e = B.item(es, E * (K + 1) + k)
    x, y = [[t.reshape(-1)[0] if getattr(t, "ndim", 0) else t for t in e[2][d]] for d in range(2)]
    line_at(B, ("call", "", (x, y), {}), A, r, ref.ravel(), 1, "contours")


def segments(B, es, n0, k, pts):
    """es[n0], ... are the segments joining each point with the one before"""
    i = B.index("step", k)
    e = B.item(es, n0 + i)
    if B.is_true(i == 0):
        i = before = 0
    else:
        before = i - 1
    for d in range(2):
        B.eq(e[2][d][0], B.item(pts, before)[d, 0], "segments join consecutive points")
        B.eq(e[2][d][1], B.item(pts, i)[d, 0], "segments join consecutive points")


def marked(B, e, x):
    B.eq(B.np.ravel(e[2][0]), x[0, :], "start, end and reference are marked")
    B.eq(B.np.ravel(e[2][1]), x[1, :], "start, end and reference are marked")


@contract("P24", funcs=[IP + "plot_chain_error"], bounded="2 parameters, 3 steps")
def plotted_errors(B):
    np = B.np
    A = B.array("A", 2, 2)
    L = B.run("construct", B.mud("base").IterativeLinearProblem, A, np.zeros((2, 1)), np.ones((2, 1)))
    pts = [B.array(f"x{i}", 2, 1) for i in range(3)]
    L.solution_chains = [pts]
    ref = B.array("ref", 2, 1)
    B.run("plot_chain_error", L.plot_chain_error, ref, ax=B.recorder("ax"), color="r", label="err")
    e, = plots(B, "ax.plot")
    B.ensure(len(e[2][0]) == 2 and e[3].get("color") == "r" and e[3].get("label") == "err", "one value per step")
    for i in range(1, 3):
        d0, d1 = B.el(pts[i], 0, 0) - B.el(ref, 0, 0), B.el(pts[i], 1, 0) - B.el(ref, 1, 0)
        B.eq(e[2][0][i - 1], B.sqrt(d0 * d0 + d1 * d1), "distance of every step to the reference")


@contract("P24", funcs=[PL + "plot_1D_vecs"], bounded="up to 2 vectors")
def plotted_vectors(B):
    k = B.choice("vectors", [1, 2])
    n = B.dim("n", num=(1, 4))
    V = [B.array(f"v{i}", n) for i in range(k)]
    kw = {}
    if B.choice("markers", [False, True]):
        kw["markers"] = ["o", "x"]
    f = B.mud("plot").plot_1D_vecs
    B.run("plot_1D_vecs", f, V, ax=B.recorder("ax"), label=B.choice("label", [True, False]), s=2, **kw)
    es = plots(B, "ax.scatter")
    B.ensure(len(es) == k, "one set of points per vector, on the axes given")
    for i, e in enumerate(es):
        B.eq(e[2][0], B.np.arange(n), "against the index")
        B.eq(e[2][1], V[i], "the components")
        B.ensure(e[3].get("s") == 2 and e[3].get("marker") == (kw["markers"][i] if kw else None), "options")


@contract("P24", funcs=[PL + "plot_1D_vecs"])
def any_plotted_vectors(B):
    """any number of vectors"""
    k, n = B.dim("vectors", num=(1, 4)), B.dim("n", num=(1, 4))
    V = B.arrays("v", k, n)
    f = B.mud("plot").plot_1D_vecs
    B.run("plot_1D_vecs", f, V, ax=B.recorder("ax"), s=2)
    es = B.calls("ax.scatter")
    B.ensure(B.length(es) == k, "one set of points per vector, on the axes given")
    i = B.index("vector", k)
    e = B.item(es, i)
    B.eq(e[2][0], B.np.arange(n), "against the index")
    B.eq(e[2][1], B.item(V, i), "the components")
    B.ensure(e[3].get("s") == 2 and "marker" not in e[3], "options")


@contract("P24", funcs=[IP + "plot_chain_error", IP + "get_errors"])
def any_plotted_errors(B):
    """any number of epochs of any length"""
    np = B.np
    m, p, K, E = B.dim("rows", num=(1, 3)), B.dim("p", num=(1, 3)), B.dim("steps", num=(1, 3)), B.dim("epochs", num=(1, 3))
    A = B.array("A", m, p)
    if not B.symbolic:
        for q in range(m):
            B.assume((A[q] ** 2).sum() > 1e-2)
    L = B.run("construct", B.mud("base").IterativeLinearProblem, A, np.zeros((m, 1)), np.ones((m, 1)), idx_order=B.idx_array("order", K, m))
    B.run("solve", L.solve, num_epochs=E)
    B.havoc(L.solution_chains)          # whatever the chains are
    ref = B.array("ref", p, 1)
    B.run("plot_chain_error", L.plot_chain_error, ref, ax=B.recorder("ax"), color="r", label="err")
    e, = plots(B, "ax.plot")
    B.ensure(B.length(e[2][0]) == E * K and e[3].get("color") == "r" and e[3].get("label") == "err", "one value per step")
    j, k = B.index("epoch", E), B.index("step", K)
    d = B.item(B.item(L.solution_chains, j), k + 1) - ref
    B.eq(B.item(e[2][0], j * K + k), B.sqrt(B.sum(p, lambda q: B.el(d, q, 0) * B.el(d, q, 0))), "distance of every step to the reference")


@contract("P24", funcs=[DP + "plot_param_space", DP + "plot_obs_space", DP + "_refit", BP + "plot_obs_space", BP + "plot_param_space", BP + "_ps_weights"],
          bounded="1 parameter and 1 observable; one change after solving", weight=2)
def curves_after_changes(B):
    """plots of a problem changed after it was solved show its current densities"""
    np = B.np
    m = B.dim("m", lo=2, num=(2, 4))
    if B.choice("problem", ["density", "bayes"]) == "density":
        D, n, X, y, w, dom, fi, fo, fp = solved_density(B, 1, 1, B.choice("weights", [False, True]))
        wv = w if w is not None else np.ones(n)
        B.run("set_predicted", D.set_predicted, fp)
        B.run("fit", D.fit)
        ch = B.choice("change", ["observed", "initial", "predicted", "weights"])
        new = B.dist("new", pos=True)
        pv = np.prod(fp.pdf(y), axis=1)
        if ch == "observed":
            B.run("set_observed", D.set_observed, new)
            fo = new
        elif ch == "predicted":
            B.run("set_predicted", D.set_predicted, new)
            pv = np.prod(new.pdf(y), axis=1)
        else:
            if ch == "weights":
                wv = B.array("w2", n, pos=True)
                B.run("set_weights", D.set_weights, wv)
            else:
                B.run("set_initial", D.set_initial, new)
            pv = B.stats.gaussian_kde(y.T, weights=wv).pdf(y.T)
        r = np.prod(fo.pdf(y), axis=1) / pv
        if B.choice("space", ["parameters", "observables"]) == "parameters":
            by = draw(B, D, D.plot_param_space, "plot_param_space", [(k, k == "up_opts") for k in ("in_opts", "up_opts", "win_opts", "mud_opts", "true_opts")], True, aff=m + 1, x_range=dom)
            x, v = marginal(B, kde_of(B, X, r * wv), dom, 0, 1, m)
            curve(B, by["up_opts"], x, v, {}, "updated density")
        else:
            by = draw(B, D, D.plot_obs_space, "plot_obs_space", [(k, k == "pf_opts") for k in ("ob_opts", "pr_opts", "pf_opts")], True, aff=m + 1, y_range=dom)
            x, v = marginal(B, kde_of(B, y, r * wv), dom, 0, 1, m)
            curve(B, by["pf_opts"], x, v, {}, "push-forward of the updated density")
        return
    n = B.dim("n", lo=2, num=(6, 9))
    X, y = B.array("X", n, 1), B.array("y", n, 1)
    dom = box(B, 1)
    D = B.run("construct", B.mud("base").BayesProblem, X, y, domain=dom)
    fp, fl, new = B.dist("prior", pos=True), B.dist("ll", pos=True), B.dist("new", pos=True)
    B.run("set_prior", D.set_prior, fp)
    B.run("set_likelihood", D.set_likelihood, fl)
    if B.choice("solved before", [True, False]):
        B.run("fit", D.fit)
        if B.choice("change", ["prior", "likelihood"]) == "prior":
            B.run("set_prior", D.set_prior, new)
            fp = new
        else:
            B.run("set_likelihood", D.set_likelihood, new)
            fl = new
    ps = np.prod(fp.pdf(X), axis=1) * np.prod(fl.pdf(y), axis=1)
    if B.choice("space", ["parameters", "observables"]) == "parameters":
        by = draw(B, D, D.plot_param_space, "plot_param_space", [(k, k == "ps_opts") for k in ("pr_opts", "ps_opts", "map_opts", "true_opts")], True, aff=m + 1)
        x, v = marginal(B, kde_of(B, X, ps), dom, 0, 1, m)
        curve(B, by["ps_opts"], x, v, {}, "posterior")
    else:
        by = draw(B, D, D.plot_obs_space, "plot_obs_space", [("ll_opts", False), ("pf_opts", True)], True, aff=m + 1, y_range=dom)
        x, v = marginal(B, kde_of(B, y, ps), dom, 0, 1, m, scaled=False)
        got = by["pf_opts"][2][1]
        B.eq(by["pf_opts"][2][0], x, "against the observable's values")
        B.eq(got * np.sum(v), v * np.sum(got), "push-forward of the posterior, up to scale")


@contract("P24", funcs=[BS + "SpatioTemporalProblem.sensor_contour_plot", BS + "SpatioTemporalProblem.sensor_scatter_plot"])
def sensor_plots(B):
    n, s = B.dim("n", num=(1, 3)), B.dim("s", lo=3, num=(3, 5))
    S = B.run("construct", B.mud("base").SpatioTemporalProblem)
    S.sensors = sn = B.array("sensors", s, 2)
    S.data = da = B.array("data", n, s)
    ax = B.recorder("ax")
    kw, pick = {}, sn
    if B.choice("mask", ["none", "array"]) == "array":
        q = B.dim("q", num=(1, 3))
        kw["mask"] = mk = B.idx_array("mask", q, s)
        pick = sn[mk, :]
    if B.choice("plot", ["scatter", "contour"]) == "scatter":
        B.run("sensor_scatter_plot", S.sensor_scatter_plot, ax=ax, s=5, **kw)
        e, = plots(B, "ax.scatter")
    else:
        i = B.index("i", n)
        fill = B.choice("fill", [True, False])
        val = da[i, mk] if "mask" in kw else da[i, :]
        if B.choice("values", ["the data", "given"]) == "given":
            kw["c_vals"] = val = B.array("c", q if "mask" in kw else s)
        bar, b0 = B.choice("colour bar", [False, True]), len(plots(B, "*.colorbar"))
        B.recorded_axes()
        B.run("sensor_contour_plot", S.sensor_contour_plot, idx=i, ax=ax, fill=fill, colorbar=bar, s=5, **kw)
        B.ensure(len(plots(B, "*.colorbar")) - b0 == (1 if bar else 0), "a colour bar when asked for")
        e, = plots(B, "ax.tricontourf" if fill else "ax.tricontour")
        B.eq(e[2][2], val, "values of the chosen sample, or those given")
    B.eq(e[2][0], pick[:, 0], "first coordinate of the chosen sensors")
    B.eq(e[2][1], pick[:, 1], "second coordinate of the chosen sensors")
    B.ensure(e[3].get("s") == 5, "options")


@contract("P24", funcs=[PL + "save_figure"])
def saved_figure(B):
    f = B.mud("plot").save_figure
    B.recorded_axes()
    name, kw, close = B.choice("name", ["fig.png", "sub/Fig.v2.PDF", "/abs/fig.png", "fig"]), {}, True
    folder = "figures"
    if B.choice("folder", ["default", "given"]) == "given":
        folder = kw["save_path"] = "out/here"
    if B.choice("close", ["default", True, False]) != "default":
        close = kw["close_fig"] = B.choice("closing", [True, False])
    opts = {"dpi": 70, "bbox_inches": "tight"} if B.choice("options", [False, True]) else {}
    n0 = len(plots(B, "*.close"))
    s0 = len(plots(B, "*.savefig"))
    B.run("save_figure", f, name, **kw, **opts)
    e, = plots(B, "*.savefig")[s0:]
    B.ensure(str(e[2][0]) == (name if name[0] == "/" else folder + "/" + name), "saved in the folder under the name given")
    B.ensure(dict(e[3]) == opts, "options reach the figure that is saved")
    B.ensure(len(plots(B, "*.close")) - n0 == (1 if close else 0), "closed unless it is to stay open")
