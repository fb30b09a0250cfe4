"""Confirm planted bugs and keep them under /verif/seeded.

plant.py add FILE.py      BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]
plant.py catch [ID...]    run the checks of the bugs' properties against them
plant.py refresh [ID...]  confirm kept bugs again against /repo's HEAD
plant.py table            write DESIGN.md's table from what `catch` found (caught.json)
plant.py refactor [ID...] run the checks on the edits of refactorings.py
Everything happens in scratch copies of /repo."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
CAUGHT = os.path.join(VERIF, "tools", "caught.json")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, timeout=900, **env):
    e = dict(os.environ, **env)
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = tempfile.mkdtemp(prefix="plant")
    sh("cp -a /repo %s/repo" % d)
    return d


def script(name, d):
    """build.sh or test.sh working on the scratch copy."""
    s = open("/opt/vp/" + name).read().replace("R=/opt/vp/reports", "R=%s/reports" % d).replace("/repo", d + "/repo")
    p = "%s/%s" % (d, name)
    open(p, "w").write(s)
    return p


def broken(d):
    rc, out = sh("bash %s" % script("build.sh", d))
    if rc:
        return "build: " + out[-500:]
    rc, out = sh("PYTHONPATH=%s/repo bash %s %s/o.json" % (d, script("test.sh", d), d))
    res = json.load(open(d + "/o.json"))
    passed = set(res["passed"] if "passed" in res else [k for k, v in res.items() if v == "passed"])
    miss = [t for t in STABLE if t not in passed]
    return "tests: %s" % miss[:5] if miss else ""


def confirm(src):
    """src has patch.diff, demo.sh, ...: '' if it counts, else why not."""
    d = scratch()
    try:
        demo = "bash %s/demo.sh" % src
        rc, out = sh(demo, d + "/repo", 300)
        if rc:
            return "demo fails on the unchanged tree: " + out[-800:]
        rc, out = sh("git apply %s/patch.diff" % src, d + "/repo")
        if rc:
            return "apply: " + out
        b = broken(d)
        if b:
            return b
        rc, out = sh(demo, d + "/repo", 300)
        if rc == 0:
            return "demo passes with the patch: " + out[-300:]
        if "AssertionError" not in out:
            return "demo fails without an assertion: " + out[-800:]
        return ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def add(bug):
    d = scratch()
    out = tempfile.mkdtemp(prefix="bug")
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        base = sh("git rev-list --max-parents=0 HEAD; git log --format=%H --grep=^fix: --invert-grep", d + "/repo")[1].split()
        for f in {e[0] for e in bug["edits"]}:
            own = [l for l in sh("git diff -U0 %s" % f, d + "/repo")[1].splitlines() if l.startswith("@@")]
            for h in own:
                a, _, m = re.match(r"@@ -(\d+)(,(\d+))?", h).groups()
                m = 1 if m is None else int(m)
                if m == 0:
                    continue
                bl = sh("git blame -l -s -L %s,+%d HEAD -- %s" % (a, m, f), d + "/repo")[1].splitlines()
                if any(l.split()[0].lstrip("^")[:39] not in {b[:39] for b in base} for l in bl):
                    return "changes lines of our own commits: %s" % h
        rc, diff = sh("git diff", d + "/repo")
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        open(out + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = confirm(out)
        if not r:
            t = os.path.join(SEEDED, bug["id"])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(out, t)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def catch(bid, props=None, tier="quick"):
    meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
    d = scratch()
    try:
        rc, out = sh("git apply %s/patch.diff" % os.path.join(SEEDED, bid), d + "/repo")
        assert rc == 0, out
        sh("cp -a %s %s/verif" % (VERIF, d))
        res = []
        for p in props or [meta["property"]]:
            rc, out = sh("/opt/venv/bin/python harness/run.py %s --tier %s" % (p, tier), d + "/verif", 3600, VERIF_REPO=d + "/repo", VERIF_SEED="1")
            v = re.findall(r"VIOLATION property=(\S+) replay=\S*/(\S+)\.json", out)
            res.append("%s:%s %s" % (p, rc, ",".join(sorted({x[1] for x in v})) or out[-300:]))
        return "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refactor(r):
    """'' if the tests pass and the checks of r["props"] stay quiet."""
    d = scratch()
    try:
        for f, old, new in r["edits"]:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        b = broken(d)
        if b:
            return b
        sh("cp -a %s %s/verif" % (VERIF, d))
        res = []
        for p in r["props"]:
            rc, out = sh("/opt/venv/bin/python harness/run.py %s --tier quick" % p, d + "/verif", 3600, VERIF_REPO=d + "/repo", VERIF_SEED="1")
            if rc:
                res.append("%s:%s %s" % (p, rc, out[-1500:]))
        return "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table():
    seen = json.load(open(CAUGHT))
    rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
    for i in sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        m = re.match(r"(C\d\d):1 (.*)", seen.get(i, ""))
        by = "%s: %s" % (m.group(1), ", ".join(x.split("-", 2)[-1].replace("_", "-") for x in m.group(2).split(",")[:4])) if m else "**missed**"
        rows.append("| %s | %s | %s |" % (i, str(meta["needs"]).replace("|", "/").replace("\n", " "), by))
    p = os.path.join(VERIF, "DESIGN.md")
    a, b = "<!-- plant table -->", "<!-- end -->"
    s = open(p).read()
    open(p, "w").write(s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):])


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
        with cf.ThreadPoolExecutor(6) as ex:
            for b, r in zip(bugs, ex.map(add, bugs)):
                print(b["id"], "->", r or "kept", flush=True)
    elif cmd == "table":
        table()
    elif cmd == "refactor":
        ns = {}
        exec(open(os.path.join(VERIF, "tools", "refactorings.py")).read(), ns)
        rs = [r for r in ns["REFACTORINGS"] if not args or r["id"] in args]
        with cf.ThreadPoolExecutor(4) as ex:
            for r, o in zip(rs, ex.map(refactor, rs)):
                print(r["id"], "->", o or "quiet", flush=True)
    else:
        ids = args or sorted(os.listdir(SEEDED))
        seen = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
        fn = catch if cmd == "catch" else lambda i: confirm(os.path.join(SEEDED, i)) or "ok"
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(fn, ids)):
                print(i, "->", r, flush=True)
                if cmd == "catch":
                    seen[i] = r
        if cmd == "catch":
            json.dump({i: seen[i] for i in sorted(seen) if os.path.isdir(os.path.join(SEEDED, i))}, open(CAUGHT, "w"), indent=1)


main()
