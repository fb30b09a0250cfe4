"""C25: printed and saved reports agree with the results."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import chains
import gen
import panels
from core import arr, integer, num, unsaid, val
from props import c05, c07

SPEC = "TraceReports"
ASSUMES = ["chains of at most a thousand states (numpy abbreviates longer arrays)",
           "names of classes and regimes without runs of blanks, separators of the report or LaTeX's special characters"]
KEYS = ["Number of classes", "Number of transitions", "Number of regimes", "Regime names"]
WORDS = ["poor", "rich", "lower middle", "C0", "LAG1", "a", "P(x)", "10", "-1", "North-East", "x_1", "Überall", "a rather long name of a class", "H0", "Stat.", "é"]


def cases(ctx):
    ctx.model("ReportMachine", thorough_cfg="ReportMachineT")
    rng = ctx.sub("chain")
    ds = chains.designs(ctx)
    for cnt in rng.sample(ds, min(len(ds), ctx.n(150, 3000))):
        yield dress(chains.label_case(rng, "chain", chains.data_of(cnt), len(cnt)), rng)
    for _ in range(ctx.n(150, 2000)):
        k = rng.choice([rng.randint(1, 9)] * 3 + [rng.randint(10, 12)])
        yield dress(chains.label_case(rng, "chain", chains.data_of(chains.random_counts(rng, k, rng.choice(chains.STRUCT))), k), rng)
    for k in [30, 60] * ctx.n(2, 8):  # longer lines than numpy prints
        yield dress({"op": "chain", "in": {"data": chains.data_of(chains.random_counts(rng, k, rng.choice(chains.STRUCT))), "k": k},
                     "x": {"labels": None, "fill": rng.random() < 0.5}}, rng)
    for _ in range(ctx.n(40, 400)):
        n = rng.randint(2, 30 if rng.random() < 0.3 else 8)
        y, _ = panels.panel(rng, n, rng.randint(2, 8))
        yield {"op": "chain", "in": {"data": [], "k": n, "summary": rng.random() < 0.85},
               "x": {"y": y, "cls": rng.choice(["FullRank_Markov", "GeoRank_Markov"]), "fill": rng.random() < 0.5, "how": "default"}}
    for _ in range(ctx.n(120, 1500)):
        k = rng.randint(1, 9)
        yield {"op": "sojourn", "in": {"P": chains.matrix_of(chains.random_counts(rng, k, rng.choice(chains.MATRICES))), "summary": rng.random() < 0.85},
               "x": {**chains.dressing(rng), "method": rng.random() < 0.3}}
    rng = ctx.sub("homogeneity")
    for _ in range(ctx.n(250, 3000)):
        m, r, k = rng.randint(1, 5) if rng.random() < 0.9 else rng.randint(6, 13), rng.randint(1, 6), rng.randint(1, 6)
        M = c07.mats(rng, m, r, k, rng.choice(c07.STYLES))
        kc, cl = names(rng, max(r, k))
        kr, rg = names(rng, m)
        yield {"op": "homogeneity", "in": {"M": M, "classes": cl, "regimes": rg, "title": title(rng), "file": rng.random() < 0.4, "name": rng.choice(["t", "table", "a.b"])},
               "x": {"kc": kc, "kr": kr, "title": rng.choice(["made", "summary", "both"]), "old": rng.random() < 0.3, **c07.dress(rng)}}
    rng = ctx.sub("spatial")
    for _ in range(ctx.n(30, 300)):
        n = rng.randint(3, 14)
        w = panels.weights(rng, n)
        y, dy = panels.panel(rng, n, rng.randint(2, 6))
        yield {"op": "spatial", "in": {"classes": [], "regimes": [], "title": rng.choice(["", "", "income", "per capita income"]), "file": rng.random() < 0.4, "name": "sm"},
               "x": {"y": y, "w": w, "k": rng.randint(2, 5), "m": rng.randint(2, 5), "fixed": rng.random() < 0.6, "discrete": rng.random() < 0.3,
                     "perms": rng.choice([0, 0, 3]), "fill": rng.random() < 0.3, "old": rng.random() < 0.3}}


def dress(c, rng):
    c["in"]["summary"] = rng.random() < 0.85
    c["x"]["how"] = rng.choice(["default", "given"])
    return c


def title(rng):
    return rng.choice(["Markov Homogeneity Test", "", "Test", "A title that is a good deal longer than any of the lines of the table below it is", "LR", "title: with colon"])


def names(rng, n):
    kind = rng.choice(["none", "none", "list", "tuple", "array", "ints", "intarray", "floats", "range"])
    if kind == "none":
        return kind, []
    if kind in ("ints", "intarray"):
        return kind, [str(v) for v in rng.sample(range(-5, 3000), n)]
    if kind == "floats":
        return kind, [str(v) for v in rng.sample([0.5, 1.25, 2.0, 1e9, 0.001, 3.5, -7.0] + [q / 8 for q in range(41, 80)], n)]
    if kind == "range":
        a = rng.randint(0, 3000)
        return kind, [str(a + i) for i in range(n)]
    return kind, rng.sample(WORDS, n)


def named(kind, ns):
    import numpy as np

    if kind == "tuple":
        return tuple(ns)
    if kind == "array":
        return np.array(ns)
    if kind == "ints":
        return [int(v) for v in ns]
    if kind == "intarray":
        return np.array([int(v) for v in ns])
    if kind == "floats":
        return [float(v) for v in ns]
    if kind == "range":
        return range(int(ns[0]), int(ns[0]) + len(ns))
    return list(ns)


def said(fn, *a, **k):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        r = fn(*a, **k)
    return r, f.getvalue()


def tokens(text):
    return re.findall(r"[^\W\d_]+|\d+|[\[\]]|\.\.\.", text)


def value(s):
    """A field as text and as a number, if it is one."""
    try:
        return {"s": s, "v": num(float(s))}
    except ValueError:
        return {"s": s, "v": "nan"}


def fields(line):
    for key in KEYS:
        if line.startswith(key + ":"):
            rest = line[len(key) + 1:].strip()
            return [key] + (rest.split(", ") if key == "Regime names" else [rest])
    return [v.strip() for v in re.split(r"\s{2,}", line.strip())]


def printed(text):
    raw = text.splitlines()
    res, rule = [], 0
    for line in raw:
        if re.fullmatch(r"-+", line):
            rule += 1
            continue
        if rule == 1:
            res.append([line.strip()])
            continue
        res.append(fields(line))
    return [[value(f) for f in l] for l in res]


def latex(text):
    res = []
    for line in text.splitlines():
        line = re.sub(r"\\(begin|end)\{tabular\}(\{[^}]*\})?", "", line)
        line = line.replace("\\hline", "")
        line = re.sub(r"\\\\$", "", line)
        if not line.strip():
            continue
        cells = [re.sub(r"^\\multicolumn\{\d+\}\{[^}]*\}\{(.*)\}$", r"\1", v.strip()).strip() for v in line.split("&")]
        if len(cells) == 1 and res:
            cells = fields(cells[0])
        res.append(cells)
    return [[value(f) for f in l] for l in res]


def digest(h):
    import numpy as np

    d = []
    for k in sorted(vars(h)):
        v = getattr(h, k)
        if isinstance(v, np.ndarray) and v.dtype != object and v.dtype.kind != "U":
            d.append("%s %s %s" % (k, v.dtype, " ".join(arr(v)["d"])))
        elif isinstance(v, (str, int, float, list, tuple, np.ndarray, np.generic)):
            d.append("%s %r" % (k, v))
    return d


def run(c):
    return {"chain": chain, "sojourn": sojourn, "homogeneity": homogeneity, "spatial": spatial}[c["op"]](c)


def chain(c):
    import numpy as np
    from giddy import markov as mk

    x = c["x"]
    kw = unsaid({"fill_empty_classes": x["fill"]}, fill_empty_classes=False)
    if "cls" in x:
        def make(**s):
            return getattr(mk, x["cls"])(np.array(panels.dec(x["y"])), **kw, **s)
    else:
        lab = gen.np_labels(x["labels"])[: c["in"]["k"]] if x["labels"] else np.arange(c["in"]["k"])

        def make(**s):
            return mk.Markov(lab[np.array(c["in"]["data"]) - 1], classes=lab, **kw, **s)

    s = {} if c["in"]["summary"] and x["how"] == "default" else {"summary": c["in"]["summary"]}
    m, text = said(make, **s)
    o, _ = said(make, summary=not c["in"]["summary"])
    view = lambda m: [" ".join(arr(m.transitions)["d"]), " ".join(arr(m.p)["d"]), repr([sorted(map(tuple, l or [])) for l in (m.cclasses_indices, m.rclasses_indices, m.tclasses_indices, m.astates_indices)])]
    return {"tokens": tokens(text), "with": view(m), "without": view(o), "P": [[num(v) for v in r] for r in m.p.tolist()]}


def sojourn(c):
    from giddy import markov as mk

    s = {} if c["in"]["summary"] else {"summary": False}
    _, text = said(mk.sojourn_time, chains.give(c["in"]["P"], c["x"]["as"]), **s)
    return {"tokens": [t for t in re.findall(r"\d+", re.sub(r"\bnp\.\w+\(", "(", text))] if text else []}


def scratch(c, call):
    """Outcome of the summary: lines, files and table."""
    d = tempfile.mkdtemp(prefix="gvrep")
    try:
        path = os.path.join(d, c["in"]["name"])
        if c["in"]["file"]:
            if c["x"]["old"]:
                open(path + ".tex", "w").write("x" * 20000)
            _, text = said(call, file_name=path)
        else:
            _, text = said(call)
        fs = sorted(os.listdir(d))
        table = latex(open(os.path.join(d, fs[0])).read()) if len(fs) == 1 else []
        return {"lines": printed(text), "files": fs, "table": table}
    finally:
        shutil.rmtree(d)


def homogeneity(c):
    import numpy as np
    from giddy import markov as mk

    x = c["x"]
    a = x["as"]
    M = c["in"]["M"]
    M = np.array(M) if a == "int" else [np.array(h, dtype=float) for h in M] if a == "list" else M if a == "lists" else np.array(M, dtype=float)
    kw, sk = {}, {}
    if x["kc"] != "none":
        kw["class_names"] = named(x["kc"], c["in"]["classes"])
    if x["kr"] != "none":
        kw["regime_names"] = named(x["kr"], c["in"]["regimes"])
    if x["title"] != "summary":
        kw["title"] = c["in"]["title"] if x["title"] == "made" else "another"
    if x["title"] != "made":
        sk["title"] = c["in"]["title"]
    h = mk.homogeneity(M, **kw)
    before = digest(h)
    out = scratch(c, lambda **f: h.summary(**f, **sk))
    return {**out, "before": before, "after": digest(h), "LRp": num(h.LR_p_value), "Qp": num(h.Q_p_value)}


def spatial(c):
    import numpy as np
    from giddy import markov as mk

    x = c["x"]
    y = np.array(panels.dec(x["y"]))
    kw = {"variable_name": c["in"]["title"]} if c["in"]["title"] else {}
    if x["discrete"]:
        y = np.array([[int(v) % x["k"] for v in r] for r in y])
    says = {"k": x["k"], "m": x["m"], "fixed": x["fixed"], "discrete": x["discrete"], "permutations": x["perms"], "fill_empty_classes": x["fill"]}
    np.random.seed(1)
    sm = mk.Spatial_Markov(y, panels.make(x["w"]), **kw, **unsaid(says, **c05.DEFAULTS))
    before = digest(sm)
    out = scratch(c, sm.summary)
    after = digest(sm)
    h = sm.homogeneity if hasattr(sm, "homogeneity") else mk.homogeneity(sm.T)
    return {**out, "before": before, "after": after, "M": [[[integer(v) for v in r] for r in h_] for h_ in np.asarray(sm.T)],
            "LRp": num(h.LR_p_value), "Qp": num(h.Q_p_value)}
