# props: P07
"""Histories: after every sequence of operations the answers are those of a fresh problem."""
from pyvc.contract import contract

DP = "mud.base.DensityProblem."
BP = "mud.base.BayesProblem."


class Machine:
    def __init__(self, B):
        self.B = B
        self.n, self.p, self.d = B.dim("n", lo=2, num=(4, 8)), B.dim("p", num=(1, 2)), B.dim("d", num=(1, 2))
        self.X, self.y = B.array("X", self.n, self.p), B.array("y", self.n, self.d)
        B.spread(self.y)
        lo, wd = B.array("dlo", self.p), B.array("dwd", self.p, pos=True)
        if not B.symbolic:
            lo, wd = lo - 1.0, wd + 4.0
        self.dom = B.np.column_stack([lo, lo + wd])


# ---------------------------------------------------------------- density problems

class Density(Machine):
    def __init__(self, B):
        super().__init__(B)
        self.obj = B.run("construct", B.mud("base").DensityProblem, self.X, self.y, domain=self.dom)
        self.S = {"w": None, "in": None, "pr": None, "ob": None, "fit": False}

    def fresh(self):
        """a fresh problem with the settings in force"""
        B, S = self.B, self.S
        D = B.run("fresh problem", B.mud("base").DensityProblem, self.X, self.y, domain=self.dom, weights=S["w"])
        if S["in"]:
            B.run("fresh set_initial", D.set_initial, *S["in"][0])
        if S["ob"]:
            B.run("fresh set_observed", D.set_observed, *S["ob"][0])
        if S["pr"]:
            B.run("fresh set_predicted", D.set_predicted, *S["pr"][0])
        return D

    def implied(self):
        """settings that a fit puts in force by default"""
        S = self.S
        if S["fit"]:
            return
        if S["in"] is None:
            S["in"], S["pr"] = [()], None
        if S["pr"] is None:
            S["pr"] = [()]
        if S["ob"] is None:
            S["ob"] = [()]
        S["fit"] = True


D_OPS = ["set_weights", "set_weights()", "set_initial", "set_initial()", "set_predicted", "set_predicted()",
         "set_predicted(weights)", "set_predicted(bw)", "set_observed", "set_observed()", "fit", "mud_point", "expected_ratio"]


def d_live(seq):
    """position of the argument in force for each kind of setting -> its name"""
    live = {}
    for p, op in enumerate(seq):
        if op.startswith("set_weights"):
            live.pop("w", None)
            live.pop("pr", None)
            if op == "set_weights":
                live["w"] = p
        elif op.startswith("set_initial"):
            live.pop("pr", None)
            live.pop("in", None)
            if op == "set_initial":
                live["in"] = p
        elif op.startswith("set_predicted"):
            live.pop("pr", None)
            if op == "set_predicted(weights)":
                live["w"] = p
            elif op in ("set_predicted", "set_predicted(bw)"):
                live["pr"] = p
        elif op.startswith("set_observed"):
            live.pop("ob", None)
            if op == "set_observed":
                live["ob"] = p
    codes = {"w": 900, "in": 901, "pr": 902, "ob": 903}
    return {p: codes[k] for k, p in live.items()}


def d_step(B, m, op, name, pos):
    D, S = m.obj, m.S
    if op == "set_weights":
        S["w"] = B.array("w" + name, m.n, pos=True)
        S["pr"] = None
        B.run(op, D.set_weights, S["w"])
    elif op == "set_weights()":
        S["w"], S["pr"] = None, None
        B.run(op, D.set_weights)
    elif op == "set_initial":
        S["in"], S["pr"] = [(B.dist("d" + name),)], None
        B.run(op, D.set_initial, *S["in"][0])
    elif op == "set_initial()":
        S["in"], S["pr"] = [()], None
        B.run(op, D.set_initial)
    elif op == "set_predicted":
        S["pr"] = [(B.dist("d" + name),)]
        B.run(op, D.set_predicted, *S["pr"][0])
    elif op == "set_predicted()":
        S["pr"] = [()]
        B.run(op, D.set_predicted)
    elif op == "set_predicted(bw)":
        S["pr"] = [(None, B.real("d" + name, pos=True))]
        B.run(op, D.set_predicted, *S["pr"][0])
    elif op == "set_predicted(weights)":
        S["w"], S["pr"] = B.array("w" + name, m.n, pos=True), [()]
        B.run(op, D.set_predicted, weights=S["w"])
    elif op == "set_observed":
        S["ob"] = [(B.dist("d" + name),)]
        B.run(op, D.set_observed, *S["ob"][0])
    elif op == "set_observed()":
        S["ob"] = [()]
        B.run(op, D.set_observed)
    if op.startswith("set_"):
        S["fit"] = False
        return
    m.implied()
    v = B.run(op, getattr(D, op))
    F = m.fresh()
    f = B.run("fresh " + op, getattr(F, op))
    if op == "fit":
        if hasattr(D, "_up") and hasattr(F, "_up"):
            B.eq(D._up, F._up, "fitted density is that of a fresh problem with the settings in force")
    elif op == "mud_point":
        B.eq(v, f, "estimate is that of a fresh problem with the settings in force")
    else:
        B.eq(v, f, "expected ratio is that of a fresh problem with the settings in force")


# ---------------------------------------------------------------- Bayesian problems

class Zero:
    """a likelihood that vanishes everywhere"""

    def __init__(self, np):
        self.np = np

    def pdf(self, x):
        return self.np.asarray(x) * 0.0

    def logpdf(self, x):
        return self.np.log(self.np.asarray(x) * 0.0)


class Bayes(Machine):
    def __init__(self, B):
        super().__init__(B)
        self.obj = B.run("construct", B.mud("base").BayesProblem, self.X, self.y, domain=self.dom)
        self.S = {"pr": None, "ll": None, "log": False}

    def fresh(self):
        B, S = self.B, self.S
        D = B.run("fresh problem", B.mud("base").BayesProblem, self.X, self.y, domain=self.dom)
        B.run("fresh set_likelihood", D.set_likelihood, S["ll"], log=S["log"])
        B.run("fresh set_prior", D.set_prior, *(S["pr"] or [()])[0])
        return D

    def positive(self):
        """the default prior is positive at some sample (vanishing posteriors are P06)"""
        B = self.B
        if self.S["ll"] is None or isinstance(self.S["ll"], Zero) or (self.S["pr"] or [()])[0]:
            return
        un = B.stats.uniform(loc=B.np.min(self.dom, axis=1), scale=B.np.max(self.dom, axis=1) - B.np.min(self.dom, axis=1)).pdf(self.X)
        pr = B.table((self.n,), lambda k: B.prod(self.p, lambda j: B.el(un, k, j)))
        if self.S["log"]:
            B.assume(B.lnot(B.forall(self.n, lambda k: B.el(pr, k) == 0)))
        else:
            ll = self.S["ll"].pdf(self.y)
            B.assume(B.sum(self.n, lambda i: B.el(pr, i) * B.prod(self.d, lambda j: B.el(ll, i, j))) != 0)


B_OPS = ["set_prior", "set_prior()", "set_likelihood", "set_likelihood(log)", "set_likelihood(zero)", "fit", "map_point", "estimate"]


def b_live(seq):
    live = {}
    for p, op in enumerate(seq):
        if op.startswith("set_prior"):
            live.pop("pr", None)
            if op == "set_prior":
                live["pr"] = p
        elif op.startswith("set_likelihood"):
            live.pop("ll", None)
            if op != "set_likelihood(zero)":
                live["ll"] = p
    return {p: {"pr": 901, "ll": 902}[k] for k, p in live.items()}


def b_step(B, m, op, name, pos):
    D, S = m.obj, m.S
    if op == "set_prior":
        S["pr"] = [(B.dist("d" + name, pos=True),)]
        B.run(op, D.set_prior, *S["pr"][0])
    elif op == "set_prior()":
        S["pr"] = [()]
        B.run(op, D.set_prior)
    elif op.startswith("set_likelihood"):
        S["log"] = op.endswith("(log)")
        S["ll"] = Zero(B.np) if op.endswith("(zero)") else B.dist("d" + name, pos=True)
        B.run(op, D.set_likelihood, S["ll"], log=S["log"])
    if op.startswith("set_"):
        return
    m.positive()
    o = B.call(getattr(D, op))
    if S["ll"] is None:
        B.raises(o, "no answer without a likelihood")
        return
    if S["pr"] is None:
        S["pr"] = [()]
    if isinstance(S["ll"], Zero):
        B.raises(o, "a posterior that vanishes everywhere is reported, whatever was computed before", ValueError)
        return
    v = B.get(o, op)
    F = m.fresh()
    f = B.run("fresh " + op, getattr(F, op))
    if op == "fit":
        if hasattr(D, "_ps") and hasattr(F, "_ps"):
            B.eq(D._ps, F._ps, "posterior is that of a fresh problem with the settings in force")
    else:
        B.eq(v, f, "estimate is that of a fresh problem with the settings in force")


WITHARG = {"set_weights", "set_initial", "set_predicted", "set_predicted(bw)", "set_predicted(weights)", "set_observed",
           "set_prior", "set_likelihood", "set_likelihood(log)"}


def run(machine, step, ops):
    def fn(B):
        k = B.choice("length", [3, 4, 5, 6, 2, 7, 8, 9])
        m = machine(B)
        queries = [o for o in ops if not o.startswith("set_")]
        for pos in range(k):
            step(B, m, B.choice(f"op{pos}", ops + queries * 2 if pos < k - 1 else queries), f"hs{pos}x", pos)
    return fn


def custom(machine, step, ops, live):
    def f(budget):
        from pyvc import history
        return history.explore(machine, step, ops, WITHARG, live, budget)
    return f


d = contract("P07", name="density_histories", funcs=[DP + x for x in ("__init__", "set_weights", "set_initial", "set_observed", "set_predicted", "fit",
                                                                       "mud_point", "expected_ratio")], weight=4, trials=1500)(run(Density, d_step, D_OPS))
d.custom = custom(Density, d_step, D_OPS, d_live)
b = contract("P07", name="bayes_histories", funcs=[BP + x for x in ("__init__", "set_prior", "set_likelihood", "fit", "map_point", "estimate")],
             weight=2, trials=800)(run(Bayes, b_step, B_OPS))
b.custom = custom(Bayes, b_step, B_OPS, b_live)
