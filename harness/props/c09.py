"""C09: diffusion clusters and spillover of LISA_Markov."""
import lisa
import panels
from core import arr, iarr, num, unsaid

SPEC = "TraceLisa"
ASSUMES = ["significance is taken from the p-values the object reports"]
NONE = {"sh": [0], "d": []}


def cases(ctx):
    ctx.model("ClusterMachine", "ClusterMachine" if ctx.quick else "ClusterMachineT")
    ctx.model("ClusterMachine", "ClusterMachineS" if ctx.quick else "ClusterMachineTS")
    rng = ctx.sub("random")
    for i in range(ctx.n(110, 1000)):
        n = rng.randint(4, 22) if i % 10 else rng.randint(30, 90)
        c = lisa.make(rng, n, rng.randint(2, 6), "spillover", rng.choice([9, 19, 49]) if rng.random() < 0.95 else 0,
                      rng.choice(["smooth", "smooth", "smooth", "random", "few"]), None,
                      rng.choice(["path", "ring", "lattice", "lattice", "random", "pairs"]))
        if c["x"]["level"] == "pick" or rng.random() < 0.5:
            c["x"]["level"] = rng.choice([0.1, 0.2, 0.3, "pick"])
        c["in"]["quadrant"] = rng.choice([1, 1, 1, 2, 3, 4])
        c["in"]["second"] = rng.random() < 0.5
        yield c
    for kind in ("path", "ring", "lattice", "path"):  # clusters of many units
        n = rng.randint(60, 110)
        c = lisa.make(rng, n, rng.randint(3, 5), "spillover", 9, "smooth", None, kind)
        c["x"].update(level=1.0)
        c["in"].update(quadrant=rng.choice([1, 3]), second=rng.random() < 0.5)
        yield c
    for _ in range(ctx.n(4, 30)):  # clusters that grow and shrink by many units at once
        n, t = rng.randint(70, 120), rng.randint(3, 5)
        c = lisa.make(rng, n, t, "spillover", 9, "smooth", None, rng.choice(["path", "ring"]))
        a, b = rng.randint(0, 9), rng.randint(n - 20, n - 1)
        hot = [rng.choice([(a, b // 2), (b - 3, b), (a, a + 3), (n // 2, n // 2 + 4), (n // 2 - 30, n // 2 + 30)]) for _ in range(t)]
        hot[:2] = rng.choice([[(n // 2, n // 2 + 3), (a, n // 2 + 3)], [(b - 3, b), (b - 45, b)], [(a, a + 3), (a, a + 50)]])
        y = [[(10.0 if lo <= u <= hi else 0.0) + rng.random() for lo, hi in hot] for u in range(n)]
        c["in"].update(y=panels.enc(y), zexact=False, lexact=False, quadrant=1, second=rng.random() < 0.5)
        c["x"].update(level=1.0)
        yield c
    for n in ctx.n([600], [280, 600, 1100]):  # many clusters
        c = lisa.make(rng, n, 3, "spillover", 9, "random", None, "pairs")
        c["x"].update(level=1.0)
        c["in"].update(quadrant=rng.choice([2, 4]), second=rng.random() < 0.5)
        yield c


def run(c):
    m, level = lisa.build(c)
    i = c["in"]
    kw = unsaid({"quadrant": i["quadrant"], "neighbors_on": i["second"]}, quadrant=1, neighbors_on=False)
    r = m.spillover(**kw)
    if r is None:
        return {"nothing": True}
    return {"nothing": False, "q": iarr(m.q), "pvalues": arr(m.p_values), "level": num(float(level)),
            "components": iarr(r["components"]), "spill": iarr(r["spill_over"])}
