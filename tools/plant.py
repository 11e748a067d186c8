"""Build and evaluate planted bugs.  plant.py SPECS.py [id ...] [--all-checks] [--no-tests]

SPECS.py defines BUGS = {id: dict(property=, needs=, breaks=, edits=[(path, old, new)], demo=python source)}.
Each bug is applied to a copy of /repo, bind-mounted over /repo in a private mount namespace, built, tested against the
stable tests, demonstrated, and given to the check of its property.  Kept bugs are written to /verif/seeded/<id>/.
With no SPECS ("-"), the bugs already under /verif/seeded are evaluated again.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

BASE = "1619490"
SEED = os.environ.get("PLANT_SEEDED", "/verif/seeded")
SRC = os.environ.get("PLANT_VERIF", "/verif")
REPO = os.environ.get("PLANT_REPO", "/repo")
DEMO = """#!/bin/bash
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = "import sys, warnings\nsys.path.insert(0, '/repo')\nwarnings.simplefilter('ignore')\nimport numpy as np\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(i, b):
    d = f"{SEED}/{i}"
    w = f"/tmp/plant/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"cp -a {REPO} {w}")
    for path, old, new in b["edits"]:
        p = f"{w}/{path}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"edit of {path}: {s.count(old)} matches"
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {w} diff").stdout
    # every removed line belongs to the original repository
    removed = 0
    for path in {e[0] for e in b["edits"]}:
        blame = sh(f"git -C {REPO} blame -l -s HEAD -- {path}").stdout.split("\n")
        new = subprocess.run(["git", "-C", w, "diff", "-U0", "--", path], stdout=subprocess.PIPE, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", new, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            removed += n
            for l in range(a, a + n):
                h = blame[l - 1].split()[0].lstrip("^")
                if sh(f"git -C {REPO} merge-base --is-ancestor {h} {BASE}").returncode:
                    return f"line {l} of {path} is not original: {blame[l - 1][:120]}"
    if not removed:
        return "changes no original line"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    open(f"{d}/demo.py", "w").write(HEAD + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return None


def evaluate(i, prop, tests, extra):
    d, w, v = f"{SEED}/{i}", f"/tmp/plant/{i}", f"/tmp/plant/{i}.verif"
    if not os.path.exists(w):
        sh(f"mkdir -p /tmp/plant; cp -a {REPO} {w}")
        r = sh(f"git -C {w} apply {d}/patch.diff")
        if r.returncode:
            return [f"does not apply: {r.stdout[:200]}"]
    shutil.rmtree(v, ignore_errors=True)
    sh(f"mkdir -p {v}; cd {SRC}; cp -a harness tools known_findings.txt properties.jsonl MANIFEST.json {v}/; cp -a regressions {v}/ 2>/dev/null; mkdir -p {v}/evidence {v}/replays")
    demo = f"/tmp/plant/{i}.demo"
    shutil.rmtree(demo, ignore_errors=True)
    sh(f"mkdir -p {demo}; cp {d}/* {demo}/; rm -f {demo}/patch.diff {demo}/meta.json")
    out = []
    r = sh(f"unshare -m bash -c 'mount --bind {REPO} /repo; cd /repo; timeout 300 bash {demo}/demo.sh'")
    if r.returncode:
        out.append(f"DEMO FAILS ON CLEAN: {r.stdout[-300:]}")
    ns = f"unshare -m bash -c 'mount --bind {w} /repo; mount --bind {v} /verif; %s'"
    r = sh(ns % "bash /opt/vp/build.sh")
    if r.returncode:
        return out + [f"BUILD FAILS: {r.stdout[-300:]}"]
    r = sh(ns % f"cd /repo; timeout 300 bash {demo}/demo.sh")
    if r.returncode == 0:
        out.append("DEMO PASSES WITH BUG")
    if tests:
        sh(ns % f"bash /opt/vp/test.sh {w}.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        got = json.load(open(f"{w}.json"))
        got = got.get("passed", got)
        bad = sorted(set(want) - set(got))
        if bad:
            out.append(f"TESTS FAIL ({len(bad)}): {bad[:3]}")
    for p in [prop] + [x for x in extra if x != prop]:
        r = sh(ns % f"cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 harness/run.py {p} --tier quick")
        viol = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        lines = [l for l in r.stdout.split("\n") if re.match(rf"{p}/", l)]
        out.append(f"{p}: " + (f"caught ({lines[0][:160] if lines else viol[0]})" if r.returncode == 1 and viol else f"MISSED rc={r.returncode} {r.stdout[-150:]!r}"))
    for x in (w, v, demo):
        shutil.rmtree(x, ignore_errors=True)
    return out


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    flags = [x for x in sys.argv[1:] if x.startswith("--")]
    tests = "--no-tests" not in flags
    extra = [x[2:].split("=")[1] for x in flags if x.startswith("--also=")]
    extra = extra[0].split(",") if extra else []
    todo = []
    if a[0] != "-":
        g = {}
        exec(open(a[0]).read(), g)
        for i, b in g["BUGS"].items():
            if len(a) > 1 and i not in a[1:]:
                continue
            e = write(i, b)
            if e:
                print(f"{i}: {e}")
            else:
                todo.append((i, b["property"]))
    else:
        for i in sorted(os.listdir(SEED)):
            if len(a) > 1 and i not in a[1:]:
                continue
            todo.append((i, json.load(open(f"{SEED}/{i}/meta.json"))["property"]))
    with cf.ThreadPoolExecutor(2) as ex:
        fs = {ex.submit(evaluate, i, p, tests, extra): i for i, p in todo}
        for f in cf.as_completed(fs):
            try:
                print(fs[f], "|", " | ".join(f.result()), flush=True)
            except Exception as e:
                print(fs[f], "| EVALUATION ERROR", repr(e), flush=True)
