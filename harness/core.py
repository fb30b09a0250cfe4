"""Machinery shared by all checks: running TLC, recording the real code,
judging the recordings with the specification, evidence and verdicts."""
import contextlib
import glob
import hashlib
import importlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CALL_LIMIT = 120  # seconds one call of the real code may take


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- giddy ----
def setup_giddy():
    """Import giddy from the working tree of /repo, without numba's compiler."""
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import esda.crand

    esda.crand.boolean = bool  # numba's type is no function when not compiled
    import giddy

    assert os.path.realpath(giddy.__file__).startswith(os.path.realpath(REPO)), giddy.__file__


# ------------------------------------------------------------- encoding ----
BADINT = -2147483647


def num(x):
    """A number as the canonical string of module Rat."""
    import numpy as np

    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        return str(Fraction(x))
    if isinstance(x, (complex, np.complexfloating)):
        return num(x.real) if x.imag == 0 else "nan"
    if isinstance(x, np.ndarray) and x.shape == ():
        return num(x[()])
    return "nan"


def val(s):
    """The float (or int) a string of module Rat stands for."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    f = Fraction(s)
    return float(f)


def arr(a):
    """An array of numbers."""
    import numpy as np

    a = np.asarray(a)
    return {"sh": list(a.shape), "d": [num(v) for v in a.ravel().tolist()] if a.dtype != object else [num(v) for v in a.ravel()]}


def integer(v):
    try:
        if v != v or v != int(v) or abs(int(v)) >= 2**31 - 1:
            return BADINT
        return int(v)
    except Exception:
        return BADINT


def iarr(a):
    """An array whose entries should be (small) integers."""
    import numpy as np

    a = np.asarray(a)
    return {"sh": list(a.shape), "d": [integer(v) for v in a.ravel()]}


def farr(A, dtype=float):
    """Inverse of arr."""
    import numpy as np

    return np.array([val(s) for s in A["d"]], dtype=dtype).reshape(A["sh"])


# --------------------------------------------------------- real code -------
class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


def observe(fn, *a, **k):
    """Call fn; a raised exception is an observation like any other."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except CallTimeout:
        return {"exc": "Timeout", "msg": "no result after %d s" % CALL_LIMIT}
    except MachineryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {
            "exc": type(e).__name__,
            "msg": str(e)[:200],
            "at": "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "",
        }
    finally:
        signal.alarm(0)


def unsaid(kw, **defaults):
    """The keywords without those that say what the documentation gives as the default."""
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


# ------------------------------------------------------------------ TLC ----
def java_classes():
    """Compile the operators of module Rat unless that has been done."""
    src = sorted(glob.glob(os.path.join(VERIF, "java", "gv", "*.java")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    cls = os.path.join(VERIF, "build", "cls-" + h)
    if not os.path.exists(os.path.join(cls, "gv", "GvOverrides.class")):
        tmp = tempfile.mkdtemp(prefix="gvcls")
        try:
            r = subprocess.run(
                ["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp] + src,
                capture_output=True, text=True,
            )
            if r.returncode:
                raise MachineryError("javac: " + r.stderr)
            os.makedirs(os.path.dirname(cls), exist_ok=True)
            with contextlib.suppress(OSError):
                shutil.move(tmp, cls)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return cls


_tlc_slots = []


def tlc(module, cfg=None, env=None, timeout=600, extra=(), workers=8, simulate=None):
    """Run TLC and return its output lines and statistics."""
    cls = java_classes()
    meta = tempfile.mkdtemp(prefix="tlc")
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx6g",
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:gv.GvOverrides",
        "-cp", ":".join([cls, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
        "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
        "-config", (cfg or module) + ".cfg",
    ]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
        code = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        code = "timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"The number of states generated: (\d+)", out)
    if m and not gen:
        gen = dist = int(m.group(1))
    return {
        "module": module, "cfg": cfg or module, "code": code, "out": out,
        "lines": out.splitlines(), "generated": gen, "distinct": dist, "wall": time.time() - t0,
    }


def strings(lines, tag):
    """Payloads of the lines printed by PrintT(tag \\o " " \\o ...)."""
    res = []
    for l in lines:
        if l.startswith('"' + tag + " "):
            res.append(json.loads(l)[len(tag) + 1:])
    return res


# ---------------------------------------------------------------- checks ---
class Ctx:
    """What a property's module gets to make its cases from."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.exports = {}
        self.mc = []
        self.notes = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def sub(self, name):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, name))

    def model(self, module, cfg=None, tag="CASE", thorough_cfg=None, **kw):
        """Model-check a specification; returns the cases it printed."""
        if not self.quick and thorough_cfg:
            cfg = thorough_cfg
        r = tlc(module, cfg, **kw)
        if r["code"] != 0:
            raise MachineryError("TLC on %s/%s: exit %s\n%s" % (module, r["cfg"], r["code"], r["out"][-3000:]))
        self.mc.append(r)
        # workers print in any order
        return [json.loads(s) for s in sorted(strings(r["lines"], tag))]


def judge(spec, events, timeout=700):
    """Have TLC judge events with trace module `spec`.

    Returns (failed clauses by index, totals)."""
    verdicts = {}
    pending = list(range(len(events)))
    tot = {"generated": 0, "distinct": 0, "wall": 0.0}
    crashed = 0
    while pending:
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for i in pending:
                f.write(json.dumps(events[i]) + "\n")
        try:
            r = tlc(spec, env={"VERIF_TRACE": f.name}, timeout=timeout)
        finally:
            os.unlink(f.name)
        for k in ("generated", "distinct", "wall"):
            tot[k] += r[k]
        for s in strings(r["lines"], "VERDICT"):
            i, fs = s.split(" ", 1)
            verdicts[pending[int(i) - 1]] = json.loads(fs)
        left = [i for i in pending if i not in verdicts]
        if r["code"] == 0:
            if left:
                raise MachineryError("TLC gave no verdict on %d events\n%s" % (len(left), r["out"][-2000:]))
            return verdicts, tot
        # An evaluation error: find the event that caused it and go on without.
        m = re.search(r"^(?:/\\ )?ev = (\d+)", r["out"], re.M)
        bad = None
        if m and r["code"] != "timeout":
            bad = pending[int(m.group(1)) - 1]
            if bad in verdicts:
                bad = None
        if bad is None or crashed >= 5:
            if len(left) == 1 and r["code"] != "timeout":
                bad = left[0]
            elif crashed >= 5:
                for i in left:
                    verdicts[i] = []
                tot["unjudged"] = len(left)
                return verdicts, tot
            else:
                raise MachineryError("TLC on %s: exit %s\n%s" % (spec, r["code"], r["out"][-3000:]))
        crashed += 1
        verdicts[bad] = ["unevaluable"]
        tot.setdefault("errors", []).append(r["out"][-1500:])
        pending = [i for i in pending if i not in verdicts]
    return verdicts, tot


def findings(prop):
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) op=(\S+) clause=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[(m.group(2), m.group(3))] = m.group(4).strip()
    return res


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def run_check(prop, tier, seed, replay=None):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    setup_giddy()
    mod = importlib.import_module("props." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    if replay:
        cases = json.load(open(replay))["cases"]
    else:
        cases = list(mod.cases(ctx))
    t1 = time.time()
    events = []
    for i, c in enumerate(cases):
        out = observe(mod.run, c)
        e = {"id": i, "op": c["op"], "in": c["in"], "out": out}
        events.append(e)
    t2 = time.time()
    verdicts, tot = judge(mod.SPEC, events) if events else ({}, {"generated": 0, "distinct": 0, "wall": 0})
    known = findings(prop)
    bad, hit = [], {}
    for i in sorted(verdicts):
        for cl in verdicts[i]:
            key = (cases[i]["op"], cl)
            if key in known:
                hit.setdefault(key, []).append(i)
            else:
                bad.append((i, cl))
    for key, ids in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (op %s, clause %s, %d cases)" % (prop, known[key], key[0], key[1], len(ids)))
    shown = {}
    for i, cl in bad:
        key = (cases[i]["op"], cl)
        shown.setdefault(key, []).append(i)
    for n, (key, ids) in enumerate(sorted(shown.items())):
        best = min(ids, key=lambda i: len(json.dumps(cases[i])))
        path = os.path.join(OUT, "%s-%s-%s.json" % (prop, key[0], re.sub(r"\W+", "_", key[1])))
        with open(path, "w") as f:
            json.dump({"property": prop, "clause": key[1], "cases": [cases[best]], "observed": events[best]["out"]}, f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  clause %s of %s fails in %d cases, e.g. input %s" % (key[1], key[0], len(ids), short(cases[best]["in"])))
        print("  observed %s" % short(events[best]["out"]))
    for e in tot.get("errors", []):
        print("  evaluation error: " + e.replace("\n", "\n    "))
    ops = {}
    for c in cases:
        ops[c["op"]] = ops.get(c["op"], 0) + 1
    mc_gen = sum(r["generated"] for r in ctx.mc)
    mc_dist = sum(r["distinct"] for r in ctx.mc)
    samples = []
    seen = set()
    for i, c in enumerate(cases):
        if c["op"] not in seen or (len(samples) < 6 and i % max(1, len(cases) // 6) == 0):
            seen.add(c["op"])
            samples.append({"op": c["op"], "in": short(c["in"], 1500), "out": short(events[i]["out"], 1500), "failed": verdicts.get(i, [])})
        if len(samples) >= 12:
            break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": mc_dist + tot["distinct"],
            "transitions": mc_gen + tot["generated"],
            "traces_validated_against_impl": len(verdicts) - tot.get("unjudged", 0),
            "samples": samples,
            "design_models": [
                {"module": r["module"], "config": r["cfg"], "states_generated": r["generated"],
                 "distinct_states": r["distinct"], "wall_s": round(r["wall"], 2)} for r in ctx.mc],
            "trace_states": tot["distinct"],
            "events_by_operation": ops,
            "distinct_inputs": len({json.dumps([c["op"], c["in"]], sort_keys=True) for c in cases}),
            "events_raising": sum(1 for e in events if isinstance(e["out"], dict) and "exc" in e["out"]),
            "notes": ctx.notes,
            "phase_wall_s": {"cases": round(t1 - t0, 2), "real_code": round(t2 - t1, 2), "judging": round(tot["wall"], 2)},
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    if not replay:
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d events judged %s, %d states (%d in design models), %d violations, %.1f s (cases %.1f, code %.1f, judging %.1f)" % (
        prop, tier, len(verdicts), ops, ev["coverage"]["states"], mc_dist, len(bad), time.time() - t0, t1 - t0, t2 - t1, tot["wall"]))
    return 1 if bad else 0
