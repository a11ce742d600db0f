"""Set-up check: the tools the verifier needs are there and it rejects a wrong contract."""
import subprocess
import sys


def identified(other):
    """does the verifier prove that the recursion `other` computes what `_horner` computes?"""
    from pyvc import contract, sym, conform, loader
    import types

    def run(B):
        m = types.ModuleType("recursions")
        m.__dict__["__builtins__"] = B.world.builtins
        exec(loader.code_for(conform.PROGS), m.__dict__)
        a, x = B.array("a", B.dim("n")), B.real("x")
        B.eq(m._horner(a, x), m.__dict__[other](a, x), "the same")
    r, _ = sym.run_contract(contract.Contract(run, "S", other, [], None, None, 1))
    return all(x.status == "done" and x.obls and all(o.verdict == "proved" for o in x.obls) for x in r)


def main():
    import z3
    import cvc5  # noqa
    assert z3.get_version()[0] >= 4
    from pyvc import contract, sym
    good = contract.Contract(lambda B: B.eq(B.sum(B.dim("n"), lambda k: 2 * B.el(B.array("x", 5), 0)),
                                            2 * B.el(B.array("x", 5), 0) * B.dim("n"), "sum"), "S", "good", [], None, None, 1)
    bad = contract.Contract(lambda B: B.eq(B.sum(B.dim("n"), lambda k: 2 * B.el(B.array("x", 5), 0)),
                                           B.el(B.array("x", 5), 0) * B.dim("n"), "sum"), "S", "bad", [], None, None, 1)
    r, _ = sym.run_contract(good)
    assert all(o.verdict == "proved" for x in r for o in x.obls) and any(x.obls for x in r), r[0].__dict__
    r, _ = sym.run_contract(bad)
    assert any(o.verdict != "proved" for x in r for o in x.obls)
    # recursions are identified by their definitions, and only then
    assert identified("_horner_again") and not identified("_horner_start") and not identified("_horner_step")
    v = subprocess.run(["lean", "--version"], capture_output=True, text=True)
    assert v.returncode == 0
    # the trusted library contracts and the rule for loops, against numpy (bounded: fixed programs, random sizes)
    from pyvc import conform
    import warnings
    warnings.simplefilter("ignore")
    rep = conform.run(8, (), 1, quiet=True)
    wrong = [r for r in rep if r["status"] in ("DIFFERS", "engine")]
    assert not wrong, wrong
    print("ok", v.stdout.strip(), "| assumed contracts compared with the libraries:",
          sum(r["status"] == "ok" for r in rep), "programs,", sum(r["compared"] for r in rep), "comparisons,",
          sum(r["status"] == "unsupported" for r in rep), "outside the modelled subset")


if __name__ == "__main__":
    main()
    sys.exit(0)
