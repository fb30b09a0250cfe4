"""C06: inference on spatial dependence of Spatial_Markov."""
from fractions import Fraction

import gen
import panels
from core import arr, farr, iarr, integer, num, observe
from props import c05

SPEC = "TraceSpatialTests"
ASSUMES = ["membership and frequencies of permuted statistics are judged on panels of up to five units with exactly representable lags",
           "frequencies are accepted within seven standard deviations"]
NONE = {"sh": [0], "d": []}


def recast(c, op, perms=0, enum=False, seed=0):
    c = dict(c, op=op, **{"in": dict(c["in"], discrete=c["op"] == "discrete", permutations=perms, enum=enum)})
    c["in"].setdefault("fixed", True)
    c["in"].setdefault("lagcut", [])
    c["in"].setdefault("m", 0)
    c["x"] = dict(c["x"], seed=seed)
    return c


def distinct_tallies(rng, n):
    """Weights 1, 2, 4, .. so that no two sets of neighbours weigh the same."""
    nb = panels.neighbours(rng, n)
    wt = [[float(2 ** q) for q in range(len(nb[i]))] for i in range(n)]
    return {"nb": [list(nb[i]) for i in range(n)], "wt": wt, "transform": None, "ids": None}


def one(rng, n, t, style=None, wstyle=None, many=False):
    y, dy = panels.panel(rng, n, t, style)
    w = panels.weights(rng, n, wstyle)
    vals = sorted({v for r in y for v in r})
    mode = rng.choice(["pooled", "period", "cutoffs", "cutoffs"])
    cut = sorted(rng.sample(vals, min(len(vals), rng.randint(1, 2)))) if mode == "cutoffs" else []
    lagcut = sorted(rng.sample(vals, min(len(vals), rng.randint(1, 3)))) if mode == "cutoffs" and rng.random() < 0.7 else []
    k, m = rng.randint(2, 5), rng.randint(2, 5)
    if many:
        k, m = rng.choice([(2, 9), (3, 7), (7, 3), (9, 2), (2, 8), (6, 7), (8, 8)])
        mode = "pooled"
        cut, lagcut = [], []
    if mode == "period" and dy:
        k, m = rng.choice([2, 4]), rng.choice([2, 4])
    return c05.cont(rng, y, dy, w, k, m, cut, lagcut, mode != "period", rng.random() < 0.8)


def cases(ctx):
    ctx.model("InferenceMachine")
    rng = ctx.sub("plain")
    for _ in range(ctx.n(130, 1500)):
        c = one(rng, rng.randint(3, 14), rng.randint(2, 9))
        yield recast(c, "inference")
    for n, t in [(80, 6), (150, 3)]:
        yield recast(one(rng, n, t), "inference")
    for _ in range(ctx.n(10, 100)):  # many classes, many lag classes
        yield recast(one(rng, rng.randint(20, 50), rng.randint(6, 14), many=True), "inference")
    for _ in range(ctx.n(50, 600)):
        n = rng.randint(2, 9)
        d, k = gen.compress(gen.table(rng, n, rng.randint(2, 8), rng.randint(2, 4), rng.choice(gen.STYLES)))
        yield recast(c05.disc(rng, d, k, panels.weights(rng, n), rng.random() < 0.8), "inference", seed=1)
    rng = ctx.sub("enum")
    done = 0
    while done < ctx.n(26, 160):
        n = rng.choice([3, 3, 4, 4]) if ctx.quick or rng.random() < 0.9 else 5
        c = one(rng, n, rng.randint(2, 4), rng.choice(["ints", "few", "negative"]), rng.choice(["B", "B", "Rpow2"]))
        if not c["in"]["lagexact"]:
            continue
        done += 1
        yield recast(c, "permutations", ctx.n(200, 600), True, rng.randrange(2**31))
    for _ in range(ctx.n(8, 40)):
        n = rng.choice([3, 4])
        d, k = gen.compress(gen.table(rng, n, rng.randint(2, 4), rng.randint(2, 4), "uniform"))
        yield recast(c05.disc(rng, d, k, distinct_tallies(rng, n), rng.random() < 0.5), "permutations", ctx.n(120, 400), True, rng.randrange(2**31))
    for n in ctx.n([1200], [1200, 3000]):  # many permutations
        c = one(rng, 5, 3)
        yield recast(c, "permutations", n, False, rng.randrange(2**31))
    rng = ctx.sub("perms")
    for i in range(ctx.n(46, 340)):
        many = i % 5 == 4
        c = one(rng, rng.randint(20, 40), rng.randint(4, 8), "random" if i % 10 == 9 else None, many=many) if many else one(rng, rng.randint(3, 12), rng.randint(2, 7))
        yield recast(c, "permutations", rng.choice([1, 2, 9, 19, 49]), False, rng.randrange(2**31))


def attributes(s):
    a = {
        "k": int(s.k), "m": int(s.m), "class_ids": iarr(s.class_ids), "lclass_ids": iarr(s.lclass_ids),
        "cutoffs": NONE if s.cutoffs is None else arr(s.cutoffs),
        "lag_cutoffs": NONE if s.lag_cutoffs is None else arr(s.lag_cutoffs),
        "T": iarr(s.T), "P": arr(s.P), "transitions": iarr(s.transitions), "p": arr(s.p),
        "chi2": [[num(v) for v in c] for c in s.chi2], "x2": num(s.x2), "x2_dof": integer(s.x2_dof), "x2_pvalue": num(s.x2_pvalue),
        "Q": num(s.Q), "Q_p_value": num(s.Q_p_value), "LR": num(s.LR), "LR_p_value": num(s.LR_p_value), "dof_hom": integer(s.dof_hom),
        "s": observe(lambda: arr(s.s)), "f": observe(lambda: arr(s.f)), "F": observe(lambda: arr(s.F)),
    }
    import numpy as np

    a["S"] = observe(lambda: {"v": [arr(np.asarray(r, dtype=float)) for r in s.S]})
    a["shtest"] = observe(lambda: {"v": [[num(v) for v in r] for r in s.shtest]})
    return a


def run(c):
    import numpy as np

    make = (lambda **k: c05.build_discrete(c, **k)[0]) if c["in"]["discrete"] else (lambda **k: c05.build(c, **k))
    np.random.seed(c["x"]["seed"])
    if c["op"] == "inference":
        return attributes(make())
    plain = attributes(make())
    s = make(permutations=c["in"]["permutations"])
    return {"plain": plain, "observed": attributes(s), "realizations": arr(s.x2_realizations), "rpvalue": num(s.x2_rpvalue)}
