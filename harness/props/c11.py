"""C11: full rank and geographic rank chains."""
import panels
from core import arr, iarr, integer, num, observe, quiet, val

SPEC = "TraceRanks"
ASSUMES = ["no missing values"]
DTYPES = ["float", "float", "int", "uint8", "int8", "float32", "list", "F", "bool"]


def cases(ctx):
    cs = ctx.model("RankMachine") + ctx.model("RankMachine", "RankMachineB", thorough_cfg="RankMachineT")
    if not ctx.quick:
        cs += ctx.model("RankMachine", "RankMachineT2")
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = rng.sample(cs, 260)
    for c in cs:
        for op in ("FullRank", "GeoRank"):
            yield case(rng, op, c["y"])
    rng = ctx.sub("random")
    for _ in range(ctx.n(170, 2500)):
        n, t = rng.randint(1, 14), rng.randint(2, 10)
        y, _ = panels.panel(rng, n, t)
        yield case(rng, rng.choice(["FullRank", "GeoRank"]), y)
    for _ in range(ctx.n(30, 300)):  # integers that floats can not tell apart
        n, t = rng.randint(2, 8), rng.randint(2, 6)
        b = rng.choice([2**53, -(2**53), 2**60, 2**62, -(2**62)])
        y = [[b + rng.randint(-3, 3) for _ in range(t)] for _ in range(n)]
        yield {"op": rng.choice(["FullRank", "GeoRank"]), "in": {"y": [[str(v) for v in r] for r in y]}, "x": {"as": "exact", "summary": False}}
    for n, t in [(2, 60), (30, 3), (25, 12), (135, 2), (270, 2), (3, 1100)]:
        for op in ("FullRank", "GeoRank"):
            yield case(rng, op, panels.panel(rng, n, t, "random")[0])
            if n > 100 or t > 1000:
                continue
            yield case(rng, op, panels.panel(rng, n, t, "ints")[0])


def case(rng, op, y):
    how = rng.choice(DTYPES)
    vals = {v for r in y for v in r}
    if any(v != int(v) for v in vals) and how in ("int", "uint8", "int8", "float32", "bool"):
        how = "float"
    if how == "bool" and not vals <= {0, 1}:
        how = "int"
    if how == "uint8" and min(vals) < 0:
        how = "int8"
    if (how == "int8" and not -128 <= min(vals) <= max(vals) < 128) or (how == "uint8" and max(vals) > 255):
        how = "int"
    if how == "float" and vals <= {1, 2} and rng.random() < 0.5:  # rare values
        y = [[{1: -0.0, 2: 5e-324}[v] for v in r] for r in y]
    return {"op": op, "in": {"y": [[num(float(v)) for v in r] for r in y]}, "x": {"as": how, "summary": rng.random() < 0.3}}


def give(c):
    import numpy as np

    if c["x"]["as"] == "exact":
        return np.array([[int(s) for s in r] for r in c["in"]["y"]])
    y, how = np.array([[val(s) for s in r] for r in c["in"]["y"]]), c["x"]["as"]
    if how == "list":
        return y.tolist()
    if how == "F":
        return np.asfortranarray(y)
    return y.astype(how)


def run(c):
    from giddy.markov import FullRank_Markov, GeoRank_Markov

    cls = FullRank_Markov if c["op"] == "FullRank" else GeoRank_Markov
    m = quiet(cls, give(c), summary=c["x"]["summary"])
    o = {"k": integer(m.k), "transitions": iarr(m.transitions), "p": arr(m.p),
         "steady": observe(lambda: arr(m.steady_state)), "sojourn": observe(lambda: arr(quiet(lambda: m.sojourn_time)))}
    if c["op"] == "FullRank":
        o["ranks"] = iarr(m.ranks)
    return o
