"""The property-based engine: sub-checks are (strategy, body) pairs; a failing case is shrunk and saved as a replay."""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import boot

REGISTRY = []  # filled by the property modules


class Violation(Exception):
    """The code under test broke the property."""


class Hang(Violation):
    pass


class Note:
    """What a body reports about the case it ran (labels, triviality, margins)."""

    def __init__(self):
        self.labels = Counter()
        self.trivial = False

    def __call__(self, *labels):
        for l in labels:
            self.labels[str(l)] += 1

    def skip(self, why="trivial"):
        self.trivial = True
        self.labels["trivial:" + why] += 1


class Sub:
    def __init__(self, prop, name, strategy, body, quick, thorough, rule, shrink=True):
        self.prop, self.name, self.strategy, self.body = prop, name, strategy, body
        self.quick, self.thorough, self.rule, self.shrink = quick, thorough, rule, shrink


def sub(prop, strategy, quick, thorough=None, rule="", shrink=True):
    """Registers a sub-check of a property. `strategy` generates JSON-able cases; the body raises Violation."""

    def deco(f):
        REGISTRY.append(Sub(prop, f.__name__, strategy, f, quick, thorough or quick * 12, rule or (f.__doc__ or "").strip(), shrink))
        return f

    return deco


KNOWN = []  # (property, key, probe function returning a description while the finding persists, or None)


def known(prop, key):
    def deco(f):
        KNOWN.append((prop, key, f))
        return f

    return deco


# ------------------------------------------------------------------ oracle helpers

def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def show(x, n=8):
    try:
        import numpy as np
        with np.printoptions(precision=17, threshold=12, linewidth=150):
            s = repr(x)
    except Exception:
        s = "<unprintable>"
    return s if len(s) < 600 else s[:600] + "..."


def arr(x, what="result"):
    """The returned object as a float array; anything that is not numeric is a violation."""
    import numpy as np
    try:
        a = np.asarray(x)
        if a.dtype == object or a.dtype.kind not in "fiubc":
            a = a.astype(float)
        return a
    except Exception as e:
        raise Violation(f"{what} is not numeric: {show(x)} ({type(e).__name__})")


def close(got, want, rtol=1e-9, atol=0.0, what="result", nan_ok=True):
    """Elementwise |got-want| <= atol + rtol*|want|; infinities and NaN must match; shapes must match."""
    import numpy as np
    g, w = arr(got, what), np.asarray(want)
    if g.shape != w.shape:
        if g.size == w.size == 1:
            g, w = g.reshape(()), w.reshape(())
        else:
            raise Violation(f"{what}: shape {g.shape} but expected {w.shape}; got {show(got)}")
    with np.errstate(all="ignore"):
        same = (g == w) | (np.isnan(g) & np.isnan(w) if nan_ok else False)
        ok = same | (np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w)))
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        gi, wi = np.atleast_1d(g)[tuple(i)], np.atleast_1d(w)[tuple(i)]
        raise Violation(f"{what}: got {gi!r}, expected {wi!r} (index {tuple(int(k) for k in i)}, rtol {rtol:g}, atol {atol:g})")


def same_bits(a, b, what="value"):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype or not (a == b).all() and not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
        raise Violation(f"{what} changed: {show(a)} -> {show(b)}")


def raises(exc, f, what):
    """f must raise one of exc (any Exception when exc is Exception)."""
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}({e}) instead of {exc}")
    raise Violation(f"{what}: accepted (returned {show(r)})")


# ------------------------------------------------------------------ running

def from_repo(tb):
    """True when the traceback goes through the code under test."""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(boot.REPO + "/copulae/") or fn.startswith("copulae/") or fn.endswith(".pyx"):
            return True
        tb = tb.tb_next
    return False


CASE_LIMIT = 150  # seconds; cases normally take milliseconds


def _alarm(signum, frame):
    raise Hang(f"the call did not return within {CASE_LIMIT} s")


def run_body(s, case, note):
    """Runs one case. Raises Violation when the property is broken; other exceptions are harness errors."""
    import numpy as np
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                s.body(case, note)
    except Violation:
        raise
    except Exception as e:
        if from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"raised {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.name})")
        if os.environ.get("VERIF_RAW"):
            raise
        # the oracle runs cleanly on every case of the unchanged tree, so a result it cannot digest is a broken result
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"unusable result: {type(e).__name__}: {str(e)[:300]} (check line {last.lineno}: {last.line})")
    finally:
        signal.alarm(0)


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=10).hexdigest()


def run_sub(prop, name, tier, seed, budget_s, scale=1.0, crumb_path=None):
    """Worker: explores one sub-check. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 120
    s = next(x for x in REGISTRY if x.prop == prop and x.name == name)
    n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
    t0 = time.time()
    st = {"evals": 0, "skipped": 0, "seen": set(), "trivial": 0, "labels": Counter(), "samples": [], "fail": None, "hang": None, "worst": 0.0}
    sub_seed = int.from_bytes(hashlib.blake2b(f"{prop}/{name}/{seed}".encode(), digest_size=6).digest(), "big")
    crumb = open(crumb_path, "w") if crumb_path else None  # survives a crash of this process
    phases = (Phase.generate, Phase.shrink) if s.shrink else (Phase.generate,)

    @hypothesis.seed(sub_seed)
    @settings(max_examples=n, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
              print_blob=False)
    @given(s.strategy)
    def t(case):
        if st["fail"] is None and time.time() - t0 > budget_s or st["hang"]:
            st["skipped"] += 1
            return
        note = Note()
        st["evals"] += 1
        if crumb:
            crumb.seek(0)
            crumb.truncate()
            crumb.write(json.dumps(case))
            crumb.flush()
        t1 = time.time()
        try:
            run_body(s, case, note)
        except Hang as e:
            st["fail"] = st["hang"] = (case, str(e))
            return
        except Violation as e:
            st["fail"] = (case, str(e))
            raise
        st["worst"] = max(st["worst"], time.time() - t1)
        st["labels"].update(note.labels)
        h = digest(case)
        if note.trivial:
            st["trivial"] += 1
        elif h not in st["seen"]:
            st["seen"].add(h)
            k = len(st["seen"])
            if k in (1, 7, 40):
                st["samples"].append(case)

    err = None
    try:
        t()
    except Violation:
        pass
    except Exception as e:
        if st["fail"] is None:
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
    return {"name": name, "evals": st["evals"], "distinct": len(st["seen"]), "trivial": st["trivial"], "skipped": st["skipped"],
            "labels": dict(st["labels"]), "samples": st["samples"], "fail": st["fail"], "error": err, "wall": time.time() - t0,
            "rule": s.rule, "worst_case_s": round(st["worst"], 3)}


def run_replays(prop):
    """Replays the committed regression cases of a property (plain calls, no generation)."""
    out = []
    d = os.path.join(boot.VERIF, "regressions", prop)
    n = 0
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        r = json.load(open(os.path.join(d, fn)))
        s = next((x for x in REGISTRY if x.prop == prop and x.name == r["sub"]), None)
        if s is None:
            continue
        n += 1
        try:
            run_body(s, r["case"], Note())
        except Violation as e:
            out.append((r["sub"], r["case"], str(e)))
    return n, out


def run_known(prop):
    out = []
    for p, key, f in KNOWN:
        if p == prop:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import numpy as np
                with np.errstate(all="ignore"):
                    d = f()
            if d:
                out.append((key, d))
    return out
