"""C20: mobility indices."""
from fractions import Fraction

import chains
import gen
from core import arr, num, val

SPEC = "TraceMobility"
ASSUMES = ["eigenvalues of numpy are accepted within 6e-8, or 4e-3 when two of them nearly coincide"]


def cases(ctx):
    cs = ctx.model("MobilityMachine", "MobilityMachine2") + ctx.model("MobilityMachine", thorough_cfg="MobilityMachineT")
    if not ctx.quick:
        cs += ctx.model("MobilityMachine", "MobilityMachineT4")
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = rng.sample(cs, min(len(cs), 220))
    for c in cs:
        yield case(rng, c["P"])
    rng = ctx.sub("random")
    for _ in range(ctx.n(260, 3000)):
        k = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 7, 8])
        cnt = chains.random_counts(rng, k, rng.choice(chains.MATRICES))
        yield case(rng, [[num(Fraction(c, sum(r))) if sum(r) else "0" for c in r] if any(r) else
                         ["1" if i == j else "0" for j in range(k)] for i, r in enumerate(cnt)])
    for k in (10, 12, 15) + ctx.n((26,), (26, 40)):
        for style in ("dense", "sparse", "absorbing"):
            cnt = chains.random_counts(rng, k, style)
            yield case(rng, [[num(Fraction(c, sum(r))) for c in r] for r in cnt])
    for k in range(2, 8):
        yield case(rng, [["1" if i == j else "0" for j in range(k)] for i in range(k)])
        yield case(rng, [["1" if i == k - 1 - j else "0" for j in range(k)] for i in range(k)])


def case(rng, P):
    import numpy as np

    k = len(P)
    w = np.linalg.eigvals(np.array([[val(s) for s in r] for r in P]))
    gap = min(abs(w[i] - w[j]) for i in range(k) for j in range(i))
    ini = [rng.choice([0, 1, 1, 2, 5]) for _ in range(k)]
    ini = [num(Fraction(c, sum(ini))) for c in ini] if sum(ini) and rng.random() < 0.8 else []
    return {"op": "mobility", "in": {"P": P, "ini": ini, "simple": bool(gap > 0.01)},
            "x": {"as": rng.choice(["array", "F", "list", "int"]), "ini": rng.choice(["array", "list"])}}


def run(c):
    import numpy as np
    from giddy.markov import prais
    from giddy.mobility import markov_mobility

    give = lambda: chains.give(c["in"]["P"], c["x"]["as"])
    kw = {}
    if c["in"]["ini"]:
        v = [val(s) for s in c["in"]["ini"]]
        kw["ini"] = v if c["x"]["ini"] == "list" else np.array(v)
    o = {m: num(markov_mobility(give(), measure=m)) for m in ("P", "D", "L2")}
    o.update({m: num(markov_mobility(give(), measure=m, **kw)) for m in ("B1", "B2")})
    o.update({m + "u": num(markov_mobility(give(), measure=m)) for m in ("B1", "B2")})
    o["default"] = num(markov_mobility(give()))
    o["prais"] = arr(prais(give()))
    return o
