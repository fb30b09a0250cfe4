"""C01: counts and probabilities of Markov."""
from core import arr, iarr, quiet, unsaid
import gen

SPEC = "TraceCounting"
ASSUMES = ["labels of a table can be told apart by numpy (no NaN)"]


def case(data, k, fill, **x):
    return {"op": "Markov", "in": {"data": data, "k": k, "fill": fill}, "x": x}


def variant(rng, k, data):
    """A way to present the table to the code."""
    kinds = [n for n in gen.LABELS if len(gen.LABELS[n]) >= k]
    x = {"labels": rng.choice(kinds), "layout": rng.choice(["C", "F", "T", "list"]), "explicit": rng.random() < 0.5}
    used = {c for r in data for c in r}
    if len(used) < k:
        x["explicit"] = True
    if x["explicit"] and rng.random() < 0.5:
        x["order"] = gen.order_of(rng, k)
    return x


def cases(ctx):
    cs = ctx.model("CountingMachine", thorough_cfg="CountingMachineT")
    rng = ctx.sub("mc")
    if ctx.quick and len(cs) > 800:
        cs = rng.sample(cs, 800)
    for c in cs:
        yield case(c["data"], c["k"], c["fill"], **variant(rng, c["k"], c["data"]))
        d, k = gen.compress(c["data"])
        if k < c["k"]:
            yield case(d, k, c["fill"], labels="int", layout="C", explicit=False)
    rng = ctx.sub("random")
    for i in range(ctx.n(250, 3000)):
        k = rng.randint(1, 8)
        n, t = rng.randint(1, 14), rng.randint(1, 12)
        d = gen.table(rng, n, t, k, rng.choice(gen.STYLES))
        if rng.random() < 0.4:
            d, k = gen.compress(d)
        yield case(d, k, rng.random() < 0.5, **variant(rng, k, d))
    # rows with given totals: proportions c/r for many r
    for r in list(range(1, 60)) + [83, 98, 99, 103, 107, 161, 187, 196, 197, 255, 256, 300]:
        c = rng.randint(0, r)
        d = [[1, 1]] * c + [[1, 2]] * (r - c) + [[2, 1]] * rng.randint(0, 3)
        if rng.random() < 0.5:
            rng.shuffle(d)
        yield case(d, 2, False, labels="int", layout="C", explicit=True)
    # more moves between two classes than small integers hold
    yield case([[1] * 390 + [2] * 10 for _ in range(180)], 2, False, labels="str", layout="C", explicit=False)
    # labels that are none of the listed classes
    for i in range(ctx.n(40, 300)):
        k = rng.randint(2, 5)
        d = gen.table(rng, rng.randint(2, 8), rng.randint(2, 6), k)
        kinds = [n for n in gen.LABELS if len(gen.LABELS[n]) >= k]
        for _ in range(2):
            yield {"op": "unlisted", "in": {"data": d, "k": k, "fill": rng.random() < 0.5},
                   "x": {"labels": rng.choice(kinds), "layout": rng.choice(["C", "list"]), "explicit": True, "drop": rng.choice(d[0])}}
    # more classes than a byte counts
    for k in ctx.n([140], [129, 200, 270, 300]):
        d = gen.table(rng, k // 2, 8, k)
        yield case(d, k, rng.random() < 0.5, labels="wide", layout="C", explicit=True)
        d, k = gen.compress(d)
        yield case(d, k, rng.random() < 0.5, labels="wide", layout="C", explicit=False)
    for n, t, k in [(1, 200, 5), (150, 2, 7), (60, 40, 12), (300, 3, 4), (2, 400, 3), (700, 2, 2)]:
        d = gen.table(rng, n, t, k)
        yield case(d, k, True, labels="int", layout="C", explicit=True)
        d = gen.table(rng, n, t, k, "sticky")
        yield case(d, k, False, labels="str", layout="C", explicit=True, order=gen.order_of(rng, k))


def build(c):
    import numpy as np
    from giddy.markov import Markov

    d, k, x = c["in"]["data"], c["in"]["k"], c["x"]
    labels = gen.np_labels(x["labels"])[:k]
    # class number i of the specification is the label at place order[i]
    order = x.get("order") or list(range(1, k + 1))
    lab = labels[[o - 1 for o in order]]
    y = lab[np.array(d, dtype=int) - 1]
    if x["layout"] == "F":
        y = np.asfortranarray(y)
    elif x["layout"] == "T":
        y = np.ascontiguousarray(y.T).T
    elif x["layout"] == "list":
        y = y.tolist()
    if x.get("drop"):  # classes may be held by the narrowest type there is for them
        lab = np.delete(lab, x["drop"] - 1)
        lab = np.array(lab.tolist(), dtype=object if lab.dtype == object else None)
    kw = {"classes": lab.copy()} if x["explicit"] else {}
    m = quiet(Markov, y, summary=False, **unsaid(dict(kw, fill_empty_classes=c["in"]["fill"]), fill_empty_classes=False))
    return m, lab


def run(c):
    if c["op"] == "unlisted":
        build(c)
        return {"counted": 1}
    m, lab = build(c)
    known = lab.tolist()
    return {
        "k": int(m.k),
        "classes": [known.index(v) + 1 if v in known else 0 for v in list(m.classes)],
        "transitions": iarr(m.transitions),
        "p": arr(m.p),
    }
