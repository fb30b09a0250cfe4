"""C05: classification and conditional transitions of Spatial_Markov."""
import gen
import panels
from core import arr, iarr, num, quiet, unsaid

SPEC = "TraceSpatial"
ASSUMES = ["every unit has a neighbour where the values are labels", "values within 1e-9 (relative) of a cutoff that has to be computed in floating point may fall on either side"]
NONE = {"sh": [0], "d": []}
DEFAULTS = {"k": 4, "m": 4, "fixed": True, "discrete": False, "permutations": 0, "fill_empty_classes": False}


def cont(rng, y, dy, w, k, m, cut, lagcut, fixed, fill):
    dw = panels.dyadic(w)
    period_ok = dy and (fixed or (k in (2, 4) and m in (2, 4)))
    return {"op": "Spatial_Markov",
            "in": {"y": panels.enc(y), "w": panels.pairs_of(w), "k": k, "m": m, "fixed": fixed, "fill": fill,
                   "cut": [num(float(c)) for c in cut], "lagcut": [num(float(c)) for c in lagcut],
                   "exact": bool(cut) or fixed or period_ok,
                   "lagexact": dy and dw and (bool(lagcut) or fixed or period_ok)},
            "x": {"w": w, "as": rng.choice(["float", "float", "list", "int", "F"])}}


def disc(rng, data, k, w, fill, op="discrete", **x):
    labels = rng.choice([n for n in gen.LABELS if len(gen.LABELS[n]) >= k and n not in ("bool",)])
    return {"op": op, "in": {"y": data, "w": panels.pairs_of(w), "k": k, "fill": fill, "exact": panels.dyadic(w)},
            "x": dict(x, w=w, labels=labels, seed=rng.randrange(2**31))}


def unw(W):
    return {"nb": [[j - 1 for j, _ in r] for r in W], "wt": [[float(gen.Fraction(x)) for _, x in r] for r in W], "transform": None}


def cases(ctx):
    rng = ctx.sub("mc")
    cs = ctx.model("SpatialMachine", thorough_cfg="SpatialMachineT")
    for c in rng.sample(cs, min(len(cs), ctx.n(350, 3000))):
        y = [[float(v) for v in r] for r in c["y"]]
        yield cont(rng, y, True, unw(c["w"]), 4, 4, [float(gen.Fraction(v)) for v in c["cut"]],
                   [float(gen.Fraction(v)) for v in c["lcut"]], True, rng.random() < 0.5)
    cs = ctx.model("SpatialMachine", "SpatialMachineD" if ctx.quick else "SpatialMachineDT")
    for c in rng.sample(cs, min(len(cs), ctx.n(250, 3000))):
        d, k = gen.compress(c["y"])
        yield disc(rng, d, k, unw(c["w"]), rng.random() < 0.5)
    rng = ctx.sub("random")
    for i in range(ctx.n(260, 3000)):
        n, t = rng.randint(2, 12), rng.randint(2, 7)
        y, dy = panels.panel(rng, n, t)
        w = panels.weights(rng, n, odd=True)
        vals = sorted({v for r in y for v in r})
        mode = rng.choice(["pooled", "pooled", "period", "cutoffs", "cutoffs", "owncut", "lagcut"])

        def cuts():
            c = set(rng.sample(vals, min(len(vals), rng.randint(1, 3))))  # values on the bounds
            if rng.random() < 0.4:
                c.add(vals[0] - 1)
            if rng.random() < 0.3:
                c.add(vals[-1] + 1)
            if rng.random() < 0.4:
                c.add(rng.uniform(vals[0], vals[-1] + 1))
            return sorted(c)

        cut = cuts() if mode in ("cutoffs", "owncut") else []
        lagcut = cuts() if mode in ("cutoffs", "lagcut") else []
        k, m = rng.randint(2, 6), rng.randint(2, 6)
        if mode == "period" and dy:
            k, m = rng.choice([2, 4]), rng.choice([2, 4])
        yield cont(rng, y, dy, w, k, m, cut, lagcut, mode != "period", rng.random() < 0.5)
    for n, t, k in [(60, 10, 9), (140, 3, 12), (2, 80, 4), (300, 2, 5), (150, 3, 12), (560, 2, 3)]:
        y, dy = panels.panel(rng, n, t, rng.choice(["random", "ints", "walk"]))
        yield cont(rng, y, dy, panels.weights(rng, n), k, rng.randint(2, k), [], [], True, True)
        d, k = gen.compress(gen.table(rng, n, t, min(k, 9)))
        yield disc(rng, d, k, panels.weights(rng, n), True)
    for i in range(ctx.n(120, 2000)):
        n, t = rng.randint(2, 10), rng.randint(2, 7)
        d, k = gen.compress(gen.table(rng, n, t, rng.randint(1, 5), rng.choice(gen.STYLES)))
        yield disc(rng, d, k, panels.weights(rng, n), rng.random() < 0.5)
    for i in range(ctx.n(10, 60)):
        n = rng.randint(3, 7)
        d, k = gen.compress(gen.table(rng, n, 2, rng.randint(2, 5)))
        yield disc(rng, d, k, panels.weights(rng, n, rng.choice(["B", "B", "Rpow2"])), False, "ties", runs=150)


def build(c, **kw):
    import numpy as np
    from giddy.markov import Spatial_Markov

    i, x = c["in"], c["x"]
    y = panels.dec(i["y"])
    if x["as"] == "list":
        y = y.tolist()
    elif x["as"] == "F":
        y = np.asfortranarray(y)
    elif x["as"] == "int" and (y == np.round(y)).all():
        y = y.astype(int)
    for a, b in (("cut", "cutoffs"), ("lagcut", "lag_cutoffs")):
        if i[a]:
            kw[b] = np.array([float(gen.Fraction(v)) for v in i[a]])
    return quiet(Spatial_Markov, y, panels.make(x["w"]),
                 **unsaid(dict(kw, k=i["k"], m=i["m"], fixed=i["fixed"], fill_empty_classes=i["fill"]), **DEFAULTS))


def build_discrete(c, **kw):
    import numpy as np
    from giddy.markov import Spatial_Markov

    i, x = c["in"], c["x"]
    lab = gen.np_labels(x["labels"])[: i["k"]]
    y = lab[np.array(i["y"]) - 1]
    return quiet(Spatial_Markov, y, panels.make(x["w"]), discrete=True, **unsaid(dict(kw, fill_empty_classes=i["fill"]), **DEFAULTS)), lab


def run(c):
    import numpy as np

    if c["op"] == "Spatial_Markov":
        s = build(c)
        classes = [int(v) for v in s.classes]
        lag_classes = [int(v) for v in s.lclasses]
    elif c["op"] == "discrete":
        np.random.seed(c["x"]["seed"])
        s, lab = build_discrete(c)
        known = lab.tolist()
        classes = [known.index(v) + 1 for v in np.asarray(s.classes).tolist()]
        lag_classes = []
    else:
        np.random.seed(c["x"]["seed"])
        n, k = len(c["in"]["y"]), c["in"]["k"]
        hits = [[0] * k for _ in range(n)]
        for _ in range(c["x"]["runs"]):
            s, lab = build_discrete(c)
            for u in range(n):
                hits[u][int(s.lclass_ids[u, 0])] += 1
        return {"hits": hits, "n": c["x"]["runs"]}
    return {
        "k": int(s.k), "m": int(s.m), "classes": classes, "lag_classes": lag_classes,
        "class_ids": iarr(s.class_ids), "lclass_ids": iarr(s.lclass_ids),
        "cutoffs": NONE if s.cutoffs is None else arr(s.cutoffs),
        "lag_cutoffs": NONE if s.lag_cutoffs is None else arr(s.lag_cutoffs),
        "T": iarr(s.T), "P": arr(s.P), "transitions": iarr(s.transitions), "p": arr(s.p),
    }
