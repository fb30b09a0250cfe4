"""C13: spatial, local and regional decompositions of tau."""
import gen
import ranks
from core import arr, iarr, integer, num, quiet
from props.c12 import tau_of

SPEC = "TraceTau"
ASSUMES = ["neighbour structures are symmetric, without isolated units, over units 0..n-1 in order"]
OPS = ["spatial", "local", "neighbor", "neighborhood", "regional"]


def case(rng, op, x, y, nb, reg):
    da, db = ranks.dressings(rng, x, y)
    exact = "uint64" not in (da["kind"], db["kind"])  # lists of large integers become floats
    return {"op": op, "in": {"a": x, "b": y, "nb": nb, "reg": reg},
            "x": {"a": da, "b": db, "names": ranks.names(rng, reg),
                  "transform": rng.choice([None, "r", "b"]), "wseed": rng.randrange(10**6), "reglist": rng.random() < 0.3, "list": exact and rng.random() < 0.2}}


def cases(ctx):
    cs = ctx.model("LocalTauMachine", thorough_cfg="LocalTauMachineT")
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = rng.sample(cs, 300)
    for c in cs:
        x, y, reg = ranks.dense(c["a"]), ranks.dense(c["b"]), ranks.dense(c["reg"])
        for op in OPS if rng.random() < 0.2 else [rng.choice(OPS)]:
            yield case(rng, op, x, y, c["nb"], reg)
    rng = ctx.sub("random")
    for _ in range(ctx.n(500, 5000)):
        n = rng.randint(2, 12)
        x, y = ranks.pair(rng, n)
        yield case(rng, rng.choice(OPS), x, y, ranks.graph(rng, n), ranks.regimes(rng, n))
    # large maps on which the variables agree, or disagree, about most pairs
    for n in ctx.n([150, 280], [150, 280, 400]):
        x = ranks.variable(rng, n, "distinct")
        y = ranks.dense([rng.choice([1, 1, 1, -1]) * v if n == 150 else v for v in x])
        nb, reg = gen.nbl(gen.graph(rng, n, rng.choice(["random", "lattice"]))), ranks.regimes(rng, n, 3)
        for op in OPS:
            yield case(rng, op, x, y, nb, reg)
    # units with many neighbours
    for n in ctx.n([14, 24, 35], [14, 24, 35, 60, 80]):
        for kind in ("complete", "star"):
            for op in ("spatial", "neighbor", "neighborhood"):
                x, y = ranks.pair(rng, n)
                yield case(rng, op, x, y, gen.nbl(gen.graph(rng, n, kind)), ranks.regimes(rng, n))
    for n in (25, 40, 140):
        x, y = ranks.pair(rng, n)
        nb, reg = ranks.graph(rng, n), ranks.regimes(rng, n)
        for op in OPS:
            yield case(rng, op, x, y, nb, reg)


def build(c, cls=None, **kw):
    import random

    from giddy import rank

    i, x = c["in"], c["x"]
    a, b = ranks.present(i["a"], x["a"]), ranks.present(i["b"], x["b"])
    if x.get("list") and not kw:
        a, b = a.tolist(), b.tolist()
    op = cls or c["op"]
    if op == "local":
        return rank.Tau_Local(a, b)
    if op == "regional":
        reg = ranks.present_regimes(i["reg"], x["names"])
        return quiet(rank.Tau_Regional, a, b, reg.tolist() if x["reglist"] else reg, **kw)
    w = ranks.weights(random.Random(x["wseed"]), i["nb"], x["transform"])
    return {"spatial": rank.SpatialTau, "neighbor": rank.Tau_Local_Neighbor, "neighborhood": rank.Tau_Local_Neighborhood}[op](a, b, w, **kw)


def observed(op, t):
    if op == "spatial":
        return dict(tau_of(t), tau_spatial=num(t.tau_spatial), pairs_spatial=integer(t.pairs_spatial),
                    concordant_spatial=integer(t.concordant_spatial), discordant_spatial=integer(t.discordant_spatial))
    if op == "local":
        return {"tau": num(t.tau), "tau_local": arr(t.tau_local), "S": iarr(t.S)}
    if op == "neighbor":
        return {"tau_ln": arr(t.tau_ln), "weights": arr(t.tau_ln_weights), "sign": iarr(t.sign)}
    if op == "neighborhood":
        return {"tau_lnhood": arr(t.tau_lnhood), "tau_local": arr(t.tau_local), "S": iarr(t.S), "sign": iarr(t.sign)}
    return {"tau_reg": arr(t.tau_reg), "S": iarr(t.S)}


def run(c):
    return observed(c["op"], build(c))
