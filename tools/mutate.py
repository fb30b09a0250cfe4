"""Systematic small changes of giddy, to find what no check notices.

mutate.py FILE [--limit N]     e.g. mutate.py rank.py
Each change is made in a scratch copy of the package; the recorded behaviour
on the quick cases is compared with that of /repo, and where it differs the
specification judges it.  Prints the changes nothing objects to:
  same       no recorded value differs
  tolerated  values differ, but none that the specification asks for
Whether such a change breaks a property is for the reader to decide."""
import ast
import concurrent.futures as cf
import copy
import importlib
import json
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
os.environ["PYTHONHASHSEED"] = "0"  # for the processes started
CACHE = os.environ.get("MUTATE_CACHE", "/tmp/mut")
PROPS = {
    "rank.py": "C12 C14 C13 C15 C23 C22", "sequence.py": "C16 C17 C22", "directional.py": "C18 C19 C23 C22 C24",
    "plotting.py": "C24 C22", "util.py": "C21 C22", "mobility.py": "C20 C22", "ergodic.py": "C03 C04 C02 C25 C22",
    "components.py": "C10 C09 C22", "markov.py": "C01 C07 C11 C02 C05 C08 C09 C06 C25 C23 C22",
}
COMPARE = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
           ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
ARITH = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add],
         ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def docs(tree):
    res = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            res.add(n.body[0])
    return res


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    skip = docs(tree)
    nodes = [n for n in ast.walk(tree)]
    for i, n in enumerate(nodes):
        def variant(change, what):
            t = copy.deepcopy(tree)
            m = [x for x in ast.walk(t)][i]
            change(m)
            return (getattr(n, "lineno", 0), what, ast.unparse(ast.fix_missing_locations(t)))

        if isinstance(n, ast.Compare):
            for q, op in enumerate(n.ops):
                for alt in COMPARE.get(type(op), []):
                    yield variant(lambda m: m.ops.__setitem__(q, alt()), "%s -> %s" % (type(op).__name__, alt.__name__))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in ARITH.get(type(n.op), []):
                yield variant(lambda m: setattr(m, "op", alt()), "%s -> %s" % (type(n.op).__name__, alt.__name__))
        elif isinstance(n, ast.BoolOp):
            alt = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield variant(lambda m: setattr(m, "op", alt()), "bool op")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            yield variant(lambda m: (setattr(m, "op", ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()),
                                     isinstance(n.op, ast.Not) and setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))), "sign or not")
        elif isinstance(n, ast.Constant) and not any(n is d.value for d in skip if isinstance(d.value, ast.Constant)):
            v = n.value
            alts = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 2, v + 1.0] if isinstance(v, float) else [v + "x"] if isinstance(v, str) else []
            for a in alts:
                yield variant(lambda m: setattr(m, "value", a), "%r -> %r" % (v, a))
        elif isinstance(n, ast.If):
            yield variant(lambda m: setattr(m, "test", ast.Constant(True)), "if True")
            yield variant(lambda m: setattr(m, "test", ast.Constant(False)), "if False")
        elif isinstance(n, ast.Call):
            if n.args:
                for k in range(len(n.keywords)):
                    yield variant(lambda m: m.keywords.pop(k), "without %s=" % n.keywords[k].arg)
            if len(n.args) >= 2:
                yield variant(lambda m: m.args.reverse(), "arguments reversed")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "ravel", "flatten", "lower"):
                yield variant(lambda m: (setattr(m, "func", ast.Name("_same", ast.Load())), setattr(m, "args", [copy.deepcopy(n.func.value)]), setattr(m, "keywords", [])), "without .%s" % n.func.attr)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "asarray", "unique", "abs", "sort", "sorted") and n.args:
                yield variant(lambda m: (setattr(m, "func", ast.Name("_same", ast.Load())), setattr(m, "args", m.args[:1]), setattr(m, "keywords", [])), "without %s" % n.func.attr)
        elif isinstance(n, ast.Slice):
            if n.step is None and n.upper is None and n.lower is None:
                yield variant(lambda m: setattr(m, "lower", ast.Constant(1)), ": -> 1:")
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, ast.Module):
                for q, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break)) and s not in skip:
                        line, what, text = variant(lambda m: getattr(m, f).__setitem__(q, ast.Pass()), "statement dropped: %s" % ast.unparse(s)[:50].replace("\n", " "))
                        yield s.lineno, what, text


def prepare(prop):
    """The quick cases and what /repo's giddy does on them."""
    p = os.path.join(CACHE, prop + ".pkl")
    if os.path.exists(p):
        return
    import core

    core.setup_giddy()
    mod = importlib.import_module("props." + prop.lower())
    cases = list(mod.cases(core.Ctx(prop, "quick", 1)))
    outs = [core.observe(mod.run, c) for c in cases]
    pickle.dump((cases, outs), open(p, "wb"))


def attempt(root, props):
    """In a process of its own: which property objects to the giddy under root."""
    import core

    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    core.REPO = root
    core.CALL_LIMIT = 10
    try:
        core.setup_giddy()
    except AssertionError:
        raise
    except Exception as e:
        return "import %r" % e
    seen = []
    for p in props:
        mod = importlib.import_module("props." + p.lower())
        cases, outs = pickle.load(open(os.path.join(CACHE, p + ".pkl"), "rb"))
        diff = []
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))
        for i, (c, o) in enumerate(zip(cases, outs)):
            t0 = time.time()
            got = core.observe(mod.run, c)
            if got != o:
                diff.append({"id": i, "op": c["op"], "in": c["in"], "out": got})
                if len(diff) >= 60 or time.time() - t0 > 9:
                    break
        if not diff:
            continue
        known = core.findings(p)
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))  # java is not limited
        try:
            v, _ = core.judge(mod.SPEC, diff)
        except Exception as e:
            return "%s machinery: %s" % (p, str(e)[-300:])
        cl = sorted({x for i in v for x in v[i] if (diff[i]["op"], x) not in known})
        if cl:
            return "%s %s" % (p, ",".join(cl[:4]))
        seen.append("%s(%d)" % (p, len(diff)))
    return "TOLERATED " + " ".join(seen) if seen else "SAME"


def one(job):
    name, line, what, text, props = job
    d = tempfile.mkdtemp(prefix="mutant", dir=CACHE)
    try:
        shutil.copytree("/repo/giddy", d + "/giddy", ignore=shutil.ignore_patterns("tests", "__pycache__"))
        with open(d + "/giddy/" + name, "w") as f:
            f.write(text + "\n\ndef _same(x):\n    return x\n")
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "--attempt", d] + props, capture_output=True, text=True, timeout=900)
            out = r.stdout.strip().splitlines()
            res = next((l[7:] for l in reversed(out) if l.startswith("RESULT ")), "crash " + r.stderr[-300:])
        except subprocess.TimeoutExpired:
            res = "timeout"
        return line, what, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "--attempt":
        print("\nRESULT " + attempt(sys.argv[2], sys.argv[3:]), flush=True)
        os._exit(0)
    if sys.argv[1] == "--prepare":
        prepare(sys.argv[2])
        return
    name = sys.argv[1]
    lines = None
    if "--lines" in sys.argv:
        a, b = sys.argv[sys.argv.index("--lines") + 1].split("-")
        lines = range(int(a), int(b) + 1)
    os.makedirs(CACHE, exist_ok=True)
    props = PROPS[name].split()
    src = open("/repo/giddy/" + name).read()
    base = ast.unparse(ast.parse(src))
    jobs, texts = [], {base}
    for line, what, text in mutants(src):
        if text not in texts and (lines is None or line in lines):
            texts.add(text)
            jobs.append((name, line, what, text, props))
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda p: subprocess.run([sys.executable, os.path.abspath(__file__), "--prepare", p], check=True), props))
    print("%s: %d changes" % (name, len(jobs)), flush=True)
    code = src.splitlines()
    with cf.ThreadPoolExecutor(int(os.environ.get("MUTATE_JOBS", "5"))) as ex:
        for (n, l, w, t, p), (line, what, res) in zip(jobs, ex.map(one, jobs)):
            mark = "##" if res.startswith(("SAME", "TOLERATED", "crash", "timeout")) or "machinery" in res else "  "
            print("%s %s:%d [%s] %s | %s" % (mark, name, line, code[line - 1].strip()[:70] if line else "", what, res), flush=True)


main()
