"""C14: theta."""
import panels
import ranks
from core import arr, integer, quiet

SPEC = "TraceTheta"
ASSUMES = ["regimes are given as an array; values are comparable (no NaN) and exactly representable as doubles"]


def case(rng, y, reg, perms=0):
    k = max(max(r) for r in y)
    return {"op": "theta", "in": {"y": y, "reg": reg},
            "x": {"v": ranks.dressing(rng, k, doubles=True), "names": ranks.names(rng, reg), "perms": perms, "seed": rng.randrange(2**31)}}


def random_case(rng, n, t, perms=0):
    cols = [ranks.variable(rng, n) for _ in range(t)]
    return case(rng, [[c[u] for c in cols] for u in range(n)], ranks.regimes(rng, n), perms)


def cases(ctx):
    cs = ctx.model("ThetaMachine", thorough_cfg="ThetaMachineT")
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = rng.sample(cs, 500)
    for c in cs:
        yield case(rng, c["y"], ranks.dense(c["reg"]))
    rng = ctx.sub("random")
    for _ in range(ctx.n(400, 4000)):
        yield random_case(rng, rng.randint(2, 14), rng.randint(2, 6), rng.choice([0, 0, 0, 1, 3]))
    for n in (40, 41, 150, 300):
        yield random_case(rng, n, 3)
    for n, k in ctx.n([(80, 80), (140, 70), (150, 140)], [(80, 80), (140, 70), (150, 140), (300, 270), (300, 300)]):  # many regimes
        cols = [ranks.variable(rng, n) for _ in range(3)]
        reg = list(range(1, k + 1)) + [rng.randint(1, k) for _ in range(n - k)]
        rng.shuffle(reg)
        c = case(rng, [[c[u] for c in cols] for u in range(n)], [1] * n)
        c["in"]["reg"], c["x"]["names"] = reg, rng.choice([list(range(k)), ["county %d" % i for i in range(k)], [i / 7 for i in range(k)]])
        yield c


def build(c, permutations=None):
    import numpy as np
    from giddy.rank import Theta

    i, x = c["in"], c["x"]
    y = np.array([ranks.present(list(col), x["v"]) for col in zip(*i["y"])]).T
    return quiet(Theta, y, ranks.present_regimes(i["reg"], x["names"]), **({} if permutations is None else {"permutations": permutations}))


def observed(c, t):
    import numpy as np

    names = [str(v) for v in np.sort(np.array(c["x"]["names"]))]
    return {"ranks": arr(t.ranks), "changes": arr(t.ranks_d), "total": arr(np.ravel(t.total)), "max_total": integer(t.max_total), "theta": arr(np.ravel(t.theta)),
            "regimes": [names.index(str(v)) + 1 if str(v) in names else 0 for v in np.ravel(t.regimes)]}


def run(c):
    import numpy as np

    np.random.seed(c["x"]["seed"])
    return observed(c, build(c, c["x"]["perms"]))
