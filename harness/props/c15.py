"""C15: permutation inference of the rank mobility measures."""
import ranks
from core import arr, num, quiet
from props import c13, c14

SPEC = "TraceRankInference"
ASSUMES = c13.ASSUMES + ["attainable values and frequencies are judged on up to five units",
                         "numpy's generator is uniform; frequencies, and agreements of consecutive draws, are accepted within seven standard deviations"]
INFERENCE = {"spatial": ("taus", "tau_spatial_psim"), "neighbor": ("tau_ln_sim", "tau_ln_pvalues"),
             "neighborhood": ("tau_lnhood_sim", "tau_lnhood_pvalues"), "regional": ("tau_reg_sim", "tau_reg_pvalues"),
             "theta": ("sim", "pvalue_left", "pvalue_right", "z")}
OPS = ["spatial", "neighbor", "neighborhood", "regional"]


def case(rng, op, n, R, enum):
    if op == "theta":
        c = c14.random_case(rng, n, rng.randint(2, 4))
    else:
        x, y = ranks.pair(rng, n)
        c = c13.case(rng, op, x, y, ranks.graph(rng, n), ranks.regimes(rng, n))
    c["in"].update(R=R, enum=enum)
    c["x"]["seed"] = rng.randrange(2**31)
    return c


def cases(ctx):
    ctx.model("InferenceMachine", thorough_cfg="InferenceMachineT")
    rng = ctx.sub("enum")
    for i in range(ctx.n(90, 700)):
        op = (OPS + ["theta"])[i % 5]
        n = rng.choice([3, 4, 4, 4, 5])
        yield case(rng, op, n, ctx.n(300, 800), True)
    rng = ctx.sub("p")
    for i in range(ctx.n(250, 2500)):
        yield case(rng, rng.choice(OPS + ["theta"]), rng.randint(3, 12), rng.choice([1, 2, 3, 5, 9, 19, 49, 99]), False)


    for op in OPS + ["theta"]:
        yield case(rng, op, 140, 4, False)
        for default in (True, False):
            for n in (3, 8):
                c = case(rng, op, n, 0, False)
                yield {"op": "unasked", "in": dict(c["in"], measure=op, default=default), "x": c["x"]}


def run(c):
    import numpy as np

    op, R = c["op"], c["in"]["R"]
    np.random.seed(c["x"]["seed"])
    if op == "unasked":
        op = c["in"]["measure"]
        kw = {} if c["in"]["default"] else {"permutations": 0}
        t = c14.build(c, **kw) if op == "theta" else c13.build(c, cls=op, **kw)
        drawn = getattr(t, INFERENCE[op][0], None)
        drawn = 0 if drawn is None else np.asarray(drawn).shape[{"neighbor": 1, "neighborhood": 1}.get(op, 0)] - (op == "theta")
        return {"inference": [a for a in INFERENCE[op] if getattr(t, a, None) is not None], "drawn": int(drawn)}
    if op == "theta":
        plain = c14.observed(c, c14.build(c, 0))
        t = c14.build(c, R)
        return {"plain": plain, "observed": c14.observed(c, t), "sims": arr(t.sim), "left": arr(t.pvalue_left),
                "right": arr(t.pvalue_right), "z": arr(t.z)}
    plain = c13.observed(op, c13.build(c))
    t = c13.build(c, permutations=R)
    sims, p = INFERENCE[op]
    p = getattr(t, p)
    return {"plain": plain, "observed": c13.observed(op, t), "sims": arr(getattr(t, sims)), "p": num(p) if op == "spatial" else arr(p)}
