"""Plants bugs in a scratch copy of /repo, confirms them, and keeps them under /verif/seeded/<id>/.

usage: python3 tools/plant.py BUGS.py [id ...]
BUGS.py holds a list BUGS of dicts: id, property, edits [(file, old, new), ...], needs, breaks, demo (python source).
A bug is kept when it applies, the demonstration passes without and fails with it, and the stable tests pass with it.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
ENV.pop("PYTHONPATH", None)
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def stable_names():
    s = STABLE
    for k in ("stable", "tests", "passed", "pass"):
        if isinstance(s, dict) and k in s:
            s = s[k]
            break
    return set(s)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        w = tempfile.mkdtemp(prefix="plant_")
        try:
            print(b["id"], plant(b, os.path.join(w, "repo"), w), flush=True)
        finally:
            shutil.rmtree(w)


def plant(b, repo, w):
    shutil.copytree("/repo", repo, symlinks=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"REJECTED: {s.count(old)} occurrences of {old!r}"
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", repo, "diff", "HEAD"], capture_output=True, text=True).stdout
    dd = os.path.join(w, "demo")
    os.makedirs(dd)
    open(os.path.join(dd, "demo.py"), "w").write(b["demo"].lstrip())
    open(os.path.join(dd, "demo.sh"), "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d); trap \'rm -rf "$work"\' EXIT\ncd "$work" || exit 2\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$here/demo.py"\n')
    r0 = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd="/repo", env=ENV, capture_output=True, text=True)
    if r0.returncode:
        return "REJECTED: demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-600:]
    e = dict(ENV, PYTHONPATH=os.path.join(repo, "src"))
    r1 = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=repo, env=e, capture_output=True, text=True)
    if not r1.returncode:
        return "REJECTED: demo passes with the bug"
    x = os.path.join(w, "j.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "--randomly-seed=0",
                    "--randomly-dont-reorganize", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x],
                   cwd=repo, env=e, capture_output=True, text=True)
    o = os.path.join(w, "out.json")
    subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], capture_output=True)
    got = json.load(open(o))
    passed = got.get("passed", got)
    if isinstance(passed, dict):
        passed = {k for k, v in passed.items() if v in (True, "pass", "passed")}
    miss = stable_names() - set(passed)
    if miss:
        return "REJECTED: stable tests fail: " + ", ".join(sorted(miss))[:600]
    out = os.path.join(ROOT, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    for n in ("demo.py", "demo.sh"):
        shutil.copy(os.path.join(dd, n), out)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    ck = ""
    if os.environ.get("CHECK", "1") == "1":
        c = subprocess.run(["python3-vt", "-m", "pyvc.check", b["property"]], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, PYVC_SRC=os.path.join(repo, "src"), VERIF_SEED="1", VERIF_TIER="quick", PYVC_NOEVID="1"))
        ck = f" | check exit {c.returncode}: " + " / ".join(l for l in c.stdout.splitlines() if "VIOLATION" in l or "UNDECIDED" in l)[:300]
    return "KEPT, demo says: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:160] + ck


main()
