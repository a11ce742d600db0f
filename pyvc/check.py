"""Check of one property:  python -m pyvc.check PROP"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

from pyvc.known import load as load_known, matches

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = os.environ.get("PYVC_PYTHON", "/opt/venv/bin/python")
SRC = os.environ.get("PYVC_SRC", "/repo/src")

TRUSTED = [
    "CPython executes the parsed source of /repo/src/mud (only comprehensions, for-iterables and builtin names are rerouted)",
    "pyvc term normaliser and z3/cvc5",
    "library contracts of numpy operations (pyvc/symnp.py): shapes, broadcasting, indexing, reductions, products; "
    "inv/pinv/svd as uninterpreted operations with homogeneity and transposition laws",
    "library contracts of scipy.stats (frozen distributions, gaussian_kde as a function of data, normalised weights, bandwidth and point)",
    "machine floating point treated as exact real arithmetic",
]


INTS = " (arrays of integers)"


def job(r):
    return r["name"] + (INTS if r["ints"] else "")


def worker(args):
    name, prop, budget, ints = args
    from pyvc import contract, sym, smt
    sym.SymB.integers = ints
    cs = [c for c in contract.load(prop) if c.name == name]
    c = cs[0]
    t0 = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0
    try:
        res, inc = sym.run_contract(c, budget)
    except BaseException as e:  # noqa
        import traceback
        return {"name": name, "ints": ints, "paths": 0, "obls": [], "unsupported": ["engine failure: " + traceback.format_exc()[-600:]],
                "incomplete": None, "notes": [], "wall": time.time() - t0, "stats": dict(smt.STATS), "infeasible": 0}
    out = {"name": name, "ints": ints, "paths": len(res), "obls": [], "unsupported": [], "incomplete": inc, "notes": set(),
           "wall": 0, "stats": dict(smt.STATS), "infeasible": 0, "states": getattr(c, "states", None)}
    for r in res:
        out["notes"] |= set(r.notes)
        if r.status == "unsupported":
            out["unsupported"].append(f"{r.choices}: {r.why}")
        if r.status == "infeasible":
            out["infeasible"] += 1
        for o in r.obls:
            out["obls"].append({"label": o.label, "verdict": o.verdict, "backend": o.backend,
                                "detail": o.detail if o.verdict != "proved" else "", "model": o.model,
                                "choices": r.choices, "pc": r.pc if o.verdict != "proved" else None})
    out["notes"] = sorted(out["notes"])
    out["wall"] = round(time.time() - t0, 2)
    return out


def numeric(prop, seed, budget, out, only=None, choices=None, dims=None, trials=0, part=None, fresh=False, style=None):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONPATH=ROOT, PYVC_SRC=SRC, MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp"))
    cmd = [VENV, "-m", "pyvc.num", "run", prop, "--seed", str(seed), "--budget", str(budget), "--out", out]
    if style:
        cmd += ["--style", style]
    if fresh:
        cmd += ["--fresh"]
    if part:
        cmd += ["--part", part]
    if only:
        cmd += ["--only", only]
    if choices:
        cmd += ["--choices", json.dumps(choices)]
    if dims:
        cmd += ["--dims", json.dumps(dims)]
    if trials:
        cmd += ["--trials", str(trials)]
    return subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd="/tmp")


def first_time_too(cs, v, seed, tier, scratch):
    """does the obligation fail without the earlier calls as well? Then it is a matter of the property it comes from
    (unless arguments are changed)"""
    name, label, rec, has = v
    c = [c for c in cs if c.name == name]
    base = getattr(c[0], "base", None) if c else None
    if base is None or label.startswith("frame:") or any(o["label"].startswith("frame:") for o in rec.get("failed_obligations", []) if isinstance(o, dict)):
        return False
    rc = {}
    if base.symbolic:
        r = worker((base.name, base.prop, 150, False))
        rc = [o for o in r["obls"] if o["verdict"] != "proved"]
    if not rc and base.numeric:
        out = os.path.join(scratch, "first.json")
        try:
            numeric(base.prop, seed, 10, out, only=base.name, choices=rec.get("choices"), trials=1000, fresh=True).communicate(timeout=120)
        except subprocess.TimeoutExpired:
            pass
        rc = ((read_json(out) or {"contracts": {}})["contracts"].get(base.name) or {}).get("fail")
    if rc:
        print(f"  {name}: {label}: fails without earlier calls as well, so it belongs to {base.prop}")
    return bool(rc)


def read_json(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def lean_check(files):
    """-> list of (file, ok, seconds, output)"""
    res = []
    procs = []
    for f in files:
        t = time.time()
        p = subprocess.Popen(["lean", os.path.join(ROOT, "lean", f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((f, p, t))
    for f, p, t in procs:
        try:
            o, _ = p.communicate(timeout=240)
            with open(os.path.join(ROOT, "lean", f)) as fh:
                txt = fh.read()
            bad = p.returncode != 0 or "sorry" in o or "error" in o or re.search(r"^\s*axiom", txt, re.M)
            n = len(re.findall(r"^\s*(?:theorem|lemma)\b", txt, re.M))
            res.append((f, not bad, round(time.time() - t, 1), o[-800:], n))
        except subprocess.TimeoutExpired:
            p.kill()
            res.append((f, None, 240, "timeout", 0))
    return res


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix="pyvc_")
    try:
        rc = run(prop, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, seed, tier, scratch, t0):
    from pyvc import contract
    cs = contract.load(prop)
    meta = contract.META.get(prop, {})
    nb = 14 if tier == "quick" else 150
    parts = 4 if "rehearsed" in meta else 1
    nouts = [os.path.join(scratch, f"num{i}.json") for i in range(parts)]
    nps = [numeric(prop, seed, nb * (3 if parts > 1 else 1), o, trials=0 if tier == "quick" else 4000, part=f"{i}/{parts}") for i, o in enumerate(nouts)]
    sy = [c for c in cs if c.symbolic]
    budget = 150 if tier == "quick" else 500
    lean_files = meta.get("lean", [])
    results = []
    ctxm = mp.get_context("fork")
    # every contract once more with arrays of integer type (conversion on stores, integer divisions); the rehearsals of
    # P08 repeat contracts that have been through this already
    jobs = [(c, False) for c in sorted(sy, key=lambda c: -c.weight)]
    if parts == 1 and meta.get("integers", True):
        jobs += [(c, True) for c, _ in jobs if not getattr(c, "custom", None)]
    pool = ctxm.Pool(min(7, max(1, len(jobs))), maxtasksperchild=1)
    asyncs = [(c, i, pool.apply_async(worker, ((c.name, prop, budget, i),))) for c, i in jobs]
    lean_res = lean_check(lean_files) if lean_files else []
    deadline = time.time() + budget + 120 * parts
    for c, i, a in asyncs:
        try:
            results.append(a.get(max(1, deadline - time.time())))
        except mp.TimeoutError:
            results.append({"name": c.name, "ints": i, "paths": 0, "obls": [], "unsupported": ["time limit of the verifier"],
                            "incomplete": None, "notes": [], "wall": budget, "stats": {}, "infeasible": 0})
        except Exception as e:
            results.append({"name": c.name, "ints": i, "paths": 0, "obls": [], "unsupported": [f"worker: {e}"],
                            "incomplete": None, "notes": [], "wall": 0, "stats": {}, "infeasible": 0})
    pool.terminate()
    pool.join()
    num = {"contracts": {}}
    for q, o in zip(nps, nouts):
        try:
            _, err = q.communicate(timeout=nb + 120)
        except subprocess.TimeoutExpired:
            q.kill()
            err = b"numeric run timed out"
        d = read_json(o) or {"contracts": {}, "error": (err or b"").decode(errors="replace")[-1500:]}
        num["contracts"].update(d["contracts"])
        if d.get("error"):
            num["error"] = d["error"]
    known = load_known()
    violations = []      # (contract, label, record, has_input)
    kprinted = []

    def is_known(cname, label, choices):
        for kf in known:
            if matches(kf, prop, cname, label, choices):
                if kf["id"] not in kprinted:
                    kprinted.append(kf["id"])
                    print(f"KNOWN-FINDING: property={prop} {kf['what']}")
                return True
        return False
    nfail = {}
    for name, s in num["contracts"].items():
        for rec in (s.get("known") or {}).values():
            is_known(name, rec["label"], rec["choices"])
    for name, s in num["contracts"].items():
        if s["fail"] and not is_known(name, s["fail"]["label"], s["fail"]["choices"]):
            nfail[name] = s["fail"]
            violations.append((name, s["fail"]["label"], s["fail"], True))
    sfail = {}
    for r in results:
        for o in r["obls"]:
            if o["verdict"] != "proved" and not is_known(r["name"], o["label"], o["choices"]):
                sfail.setdefault(r["name"], []).append(dict(o, label=o["label"] + INTS) if r["ints"] else o)
    # replay of failed obligations on the real code
    searches = []
    for name, os_ in sfail.items():
        if name in nfail:
            nfail[name]["failed_obligations"] = [o["label"] for o in os_][:10]
            continue
        c = [c for c in cs if c.name == name][0]
        if not c.numeric:
            searches.append((name, os_, None, None))
            continue
        o = os_[0]
        out = os.path.join(scratch, f"s{len(searches)}.json")
        p = numeric(prop, seed + 17, 12 if tier == "quick" else 60, out, only=name, choices=o["choices"], dims=o["model"], trials=3000,
                    style="int" if o["label"].endswith(INTS) else None)
        searches.append((name, os_, p, out))
    for name, os_, p, out in searches:
        rec = None
        if p is not None:
            try:
                p.communicate(timeout=150)
            except subprocess.TimeoutExpired:
                p.kill()
            d = read_json(out) or {"contracts": {}}
            f = (d["contracts"].get(name) or {}).get("fail")
            if f and not is_known(name, f["label"], f["choices"]):
                rec = f
        info = {"failed_obligations": [{k: o[k] for k in ("label", "verdict", "backend", "detail", "model", "choices", "pc")} for o in os_[:6]]}
        if rec:
            violations.append((name, os_[0]["label"], dict(rec, **info), True))
        else:
            violations.append((name, os_[0]["label"], info, False))
    violations = [v for v in violations if not first_time_too(cs, v, seed, tier, scratch)]
    for f, ok, sec, o, n in lean_res:
        if ok is False:
            violations.append(("lean:" + f, "lemma file is rejected", {"output": o}, False))
    nobl = sum(len(r["obls"]) for r in results) + sum(x[4] for x in lean_res)
    ndis = sum(1 for r in results for o in r["obls"] if o["verdict"] == "proved") + sum(x[4] for x in lean_res if x[1])
    unsup = {job(r): r["unsupported"][:3] for r in results if r["unsupported"]}
    inc = {job(r): r["incomplete"] for r in results if r["incomplete"]}
    vac = [job(r) for r in results if not r["obls"] and not r["unsupported"]]
    undecided = dict(unsup)
    undecided.update({k: [v] for k, v in inc.items()})
    undecided.update({k: ["no obligation was generated"] for k in vac})
    for f, ok, sec, o, n in lean_res:
        if ok is None:
            undecided["lean:" + f] = ["time limit"]
    backends = {}
    for r in results:
        for o in r["obls"]:
            if o["verdict"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    if lean_res:
        backends["lean"] = sum(x[4] for x in lean_res if x[1])
    funcs = sorted({f for c in cs for f in c.funcs})
    bounded = {c.name: c.bounded for c in cs if c.bounded}
    notes = sorted({n for r in results for n in r["notes"]})
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = round(st.get(k, 0) + v, 3)
    numsum = {k: {x: v[x] for x in ("trials", "ok", "skip", "checked", "distinct", "error")} for k, v in num["contracts"].items()}
    level = meta.get("level", "proof")
    evals = sum(v["ok"] for v in num["contracts"].values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": f"cd /verif && python3-vt -m pyvc.check {prop}",
            "trusted_base": TRUSTED + meta.get("trusted", []),
            "functions_under_contract": funcs,
            "contracts": [{"name": job(r), "paths": r["paths"], "obligations": len(r["obls"]),
                           "discharged": sum(1 for o in r["obls"] if o["verdict"] == "proved"), "wall_s": r["wall"],
                           "abstract_states": r.get("states"), "bounded": bounded.get(r["name"])} for r in results],
            "discharged_by": backends, "solver": st,
            "lemma_files": [{"file": x[0], "accepted": x[1], "theorems": x[4], "wall_s": x[2]} for x in lean_res],
            "bounded_contracts": bounded,
            "undecided_by_the_verifier": undecided,
            "evaluations": sum(v["trials"] for v in num["contracts"].values()),
            "distinct_nontrivial": sum(v["distinct"] for v in num["contracts"].values()),
            "rule": "random inputs of the contract on the real code under CPython; non-trivial: preconditions met and all "
                    "obligations evaluated; distinct: different scenario choices or dimensions",
            "samples": [dict(v["sample"], contract=k) for k, v in num["contracts"].items() if v["sample"]][:6],
            "numeric_cross_check": numsum,
            "explanation": meta.get("explanation", ""),
        },
        "known_findings": kprinted,
        "assumptions": notes + meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {ndis}/{nobl} obligations discharged over {sum(r['paths'] for r in results)} paths in {len(set(r['name'] for r in results))} contracts; "
          f"{evals} numeric runs; {time.time()-t0:.1f}s")
    for k, v in undecided.items():
        print(f"  undecided (bounded stand-in only): {k}: {v[0][:300]}")
    for k, v in numsum.items():
        if v["error"]:
            print(f"  numeric stand-in could not run {k}: {v['error'].strip().splitlines()[-1][:200]}")
    if num.get("error"):
        print("  numeric run failed:", num["error"][-600:])
    if not violations:
        return 0
    with_input = [v for v in violations if v[3]]
    for name, label, rec, has in (with_input or violations):
        path = os.path.join(ROOT, "replays", f"{prop}-{re.sub('[^A-Za-z0-9_.-]', '_', name)}.json")
        body = {"property": prop, "contract": name, "obligation": label}
        if has:
            body["failing_input"] = rec
        else:
            body["verifier_output"] = rec
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        print(f"  failed obligation: {name}: {label}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if has else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    main()
