"""run.py PROPERTY [--tier quick|thorough] [--only SUB] | run.py --replay FILE

Exit 0: held on everything explored; 1: VIOLATION line(s); anything else: an error of the check."""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "4",
       "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "HYPOTHESIS_NO_PLUGINS": "1"}
if os.path.exists(PY) and (os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("_VERIF_BOOTED") != "1"):
    os.environ.update(ENV)
    os.environ["_VERIF_BOOTED"] = "1"
    os.execv(PY, [PY, "-X", "faulthandler", os.path.abspath(__file__)] + sys.argv[1:])

import argparse
import importlib
import json
import multiprocessing as mp
import shutil
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot

# hypothesis and matplotlib-like caches must never land in /repo or the working directory
_SCRATCH = None


def load(prop):
    boot.paths()
    import core
    mod = importlib.import_module("props." + prop.lower())
    import copulae
    assert os.path.realpath(copulae.__file__).startswith(boot.REPO + "/"), copulae.__file__
    return core


def worker(args, conn):
    prop, name, tier, seed, budget, scale = args
    import core
    try:
        if name == "__replays__":
            r = {"name": name, "replays": core.run_replays(prop), "known": core.run_known(prop)}
        else:
            r = core.run_sub(prop, name, tier, seed, budget, scale, os.path.join(_SCRATCH, name + ".case"))
    except BaseException as e:
        import traceback
        r = {"name": name, "error": traceback.format_exc()[-3500:]}
    conn.send(json.loads(json.dumps(r, default=str)))
    conn.close()


def schedule(tasks, jobs, limit):
    """Runs the tasks in forked workers (the parent never runs code under test); yields (task, result or None)."""
    ctx = mp.get_context("fork")
    t0 = time.time()
    todo, live = list(tasks), {}
    while todo or live:
        while todo and len(live) < jobs:
            a = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(a, w), daemon=True)
            p.start()
            w.close()
            live[r] = (a, p)
        for r in mp.connection.wait(list(live), timeout=1.0):
            a, p = live.pop(r)
            try:
                res = r.recv()
            except EOFError:
                p.join(5)
                res = {"name": a[1], "error": f"worker died (exit code {p.exitcode})"}
                try:  # a crash of the code under test (not the out-of-memory killer) is a violation by the case that was running
                    if p.exitcode in (-11, -6, -8, -4, -7):
                        with open(os.path.join(_SCRATCH, a[1] + ".case")) as f:
                            res = {"name": a[1], "crash": (json.load(f), f"the interpreter crashed with signal {-p.exitcode}")}
                except (OSError, ValueError):
                    pass
            p.join(5)
            yield a, res
        if time.time() - t0 > limit:
            for r, (a, p) in live.items():
                p.kill()
                yield a, None
            for a in todo:
                yield a, None
            return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--quiet-evidence", action="store_true", help="do not write the evidence file")
    o = ap.parse_args()
    t0 = time.time()
    global _SCRATCH
    _SCRATCH = tempfile.mkdtemp(prefix="verif-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = _SCRATCH
    os.environ["MPLCONFIGDIR"] = _SCRATCH
    verif = boot.VERIF
    try:
        if not o.no_build:
            boot.build()
        if o.replay:
            r = json.load(open(o.replay))
            core = load(r["property"])
            os.chdir(_SCRATCH)
            s = next(x for x in core.REGISTRY if x.prop == r["property"] and x.name == r["sub"])
            try:
                core.run_body(s, r["case"], core.Note())
            except core.Violation as e:
                print(f"{r['property']}/{r['sub']}: {e}")
                print(f"VIOLATION property={r['property']} replay={o.replay}")
                return 1
            print("replay passes")
            return 0
        prop = o.prop.upper()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        # replays live in /verif/replays (gitignored)
        rdir = os.path.join(verif, "replays", prop)
        core = load(prop)
        os.chdir(_SCRATCH)
        subs = [s for s in core.REGISTRY if s.prop == prop and (not o.only or s.name in o.only.split(","))]
        if not subs:
            print("no such check")
            return 2
        budget = 240 if o.tier == "quick" else 3600
        limit = 780 if o.tier == "quick" else 4 * 3600
        tasks = [(prop, "__replays__", o.tier, seed, budget, 1.0)] if not o.only else []
        tasks += [(prop, s.name, o.tier, seed, budget, o.scale) for s in subs]
        viol, errors, inconclusive, res_subs, known, nreplay = [], [], [], [], [], 0

        def report(name, case, msg):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{name}-{core.digest(case)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": name, "case": case, "message": msg}, f, indent=1)
            viol.append((name, msg))
            print(f"{prop}/{name}: {msg}")
            print(f"  case: {json.dumps(case)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)

        for a, r in schedule(tasks, o.jobs, limit):
            if r is None:
                inconclusive.append(a[1])
                continue
            if r.get("crash"):
                report(r["name"], *r["crash"])
                continue
            if r.get("error"):
                errors.append((a[1], r["error"]))
                continue
            if a[1] == "__replays__":
                nreplay, bad = r["replays"]
                for name, case, msg in bad:
                    report(name, case, msg)
                known = r["known"]
                continue
            if r["skipped"]:
                inconclusive.append(f"{a[1]}: {r['skipped']} cases not run (time budget)")
            if r["fail"]:
                report(r["name"], *r["fail"])
            res_subs.append(r)
        listed = []
        kf = os.path.join(verif, "known_findings.txt")
        for line in open(kf) if os.path.exists(kf) else []:
            if line.startswith("finding:"):
                listed.append(line.strip())
        for key, d in known:
            if any(f"property={prop} " in l and f"key={key} " in l for l in listed):
                print(f"KNOWN-FINDING: property={prop} {d}")
            else:
                report("known:" + key, {"key": key}, d)
        ev = {
            "property": prop, "tier": o.tier if o.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(r["evals"] for r in res_subs),
                "distinct_nontrivial": sum(r["distinct"] for r in res_subs),
                "rule": " | ".join(f"{r['name']}: {r['rule']}" for r in sorted(res_subs, key=lambda r: r["name"])),
                "samples": [{"sub": r["name"], "case": c} for r in sorted(res_subs, key=lambda r: r["name"]) for c in r["samples"][:2]][:40],
                "subchecks": {r["name"]: {"evaluations": r["evals"], "distinct_nontrivial": r["distinct"], "trivial": r["trivial"],
                                          "labels": r["labels"], "wall_s": round(r["wall"], 2), "slowest_case_s": r["worst_case_s"]}
                              for r in sorted(res_subs, key=lambda r: r["name"])},
                "regression_replays": nreplay,
                "inconclusive": inconclusive,
                "known_findings": [k for k, _ in known],
            },
            "assumptions": getattr(sys.modules["props." + prop.lower()], "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        if not o.quiet_evidence and not o.only:
            os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
            with open(os.path.join(verif, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        tot = ev["coverage"]
        print(f"{prop} {o.tier} seed={seed}: {tot['evaluations']} cases, {tot['distinct_nontrivial']} distinct non-trivial, "
              f"{nreplay} replays, {len(viol)} violations, {len(errors)} errors, {ev['wall_s']} s")
        if o.only or os.environ.get("VERIF_VERBOSE"):
            for r in sorted(res_subs, key=lambda r: -r["wall"]):
                print(f"   {r['name']:34s} {r['evals']:6d} cases {r['wall']:7.1f}s worst {r['worst_case_s']}s trivial {r['trivial']} {r['labels']}")
        for name, e in errors:
            print(f"HARNESS-ERROR in {name}:\n{e}")
        if inconclusive:
            print("inconclusive:", inconclusive)
        if viol:
            return 1
        if errors:
            return 2
        if len([i for i in inconclusive if ":" not in i]):
            return 4
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(_SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
