"""C07: homogeneity tests of transition matrices."""
from core import arr, iarr, integer, num, quiet

SPEC = "TraceHomogeneity"
ASSUMES = ["counts are non-negative integers", "p-values are judged to 1e-9; with no degrees of freedom nothing is asked of them",
           "the second matrix of chi2 observes every transition of the first"]


def dress(rng):
    return {"as": rng.choice(["float", "float", "int", "list", "lists"])}


def mats(rng, m, r, k, style):
    big = rng.choice([1, 3, 20, 400])
    if style == "agree":
        base = [[rng.randint(0, 4) for _ in range(k)] for _ in range(r)]
        return [[[c * f for c in row] for row in base] for f in [rng.randint(0, 4) for _ in range(m)]]
    M = [[[rng.randint(0, big) for _ in range(k)] for _ in range(r)] for _ in range(m)]
    if style == "holes":
        for h in range(m):
            for i in range(r):
                if rng.random() < 0.3:
                    M[h][i] = [0] * k
        for i in range(r):
            if rng.random() < 0.2:
                for h in range(m):
                    M[h][i] = [0] * k
        for j in range(k):
            if rng.random() < 0.2:
                for h in range(m):
                    for i in range(r):
                        M[h][i][j] = 0
        if rng.random() < 0.2:
            M[rng.randrange(m)] = [[0] * k for _ in range(r)]
    elif style == "sparse":
        M = [[[c if rng.random() < 0.3 else 0 for c in row] for row in h] for h in M]
    elif style == "near":
        f = [rng.randint(1, 5) for _ in range(m)]
        base = [[rng.randint(0, 9) for _ in range(k)] for _ in range(r)]
        M = [[[c * f[h] for c in row] for row in base] for h in range(m)]
        M[-1][rng.randrange(r)][rng.randrange(k)] += 1
    return M


STYLES = ["dense", "holes", "sparse", "agree", "near"]


def cases(ctx):
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = ctx.model("HomogeneityMachine") + ctx.model("HomogeneityMachine", "HomogeneityMachineB")
    else:
        cs = [c for f in ("", "B", "T", "T2", "T3") for c in ctx.model("HomogeneityMachine", "HomogeneityMachine" + f)]
    for c in rng.sample(cs, min(len(cs), ctx.n(600, 6000))):
        M = c["M"]
        yield {"op": "homogeneity", "in": {"M": M}, "x": dress(rng)}
        if len(M[0]) == len(M[0][0]) and any(map(any, (r for h in M for r in h))):
            yield {"op": "kullback", "in": {"M": M}, "x": dress(rng)}
    rng = ctx.sub("random")
    for _ in range(ctx.n(250, 2500)):
        m, r, k = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
        yield {"op": "homogeneity", "in": {"M": mats(rng, m, r, k, rng.choice(STYLES))}, "x": dress(rng)}
    for m, r, k in [(12, 3, 2), (2, 14, 14), (9, 10, 10), (30, 2, 3), (1, 12, 4), (140, 2, 2), (2, 140, 2), (2, 2, 140)]:
        for style in STYLES:
            yield {"op": "homogeneity", "in": {"M": mats(rng, m, r, k, style)}, "x": dress(rng)}
    for _ in range(ctx.n(120, 1500)):
        k = rng.randint(2, 6)
        M = mats(rng, rng.randint(1, 4), k, k, rng.choice(STYLES))
        if any(map(any, (r for h in M for r in h))):
            yield {"op": "kullback", "in": {"M": M}, "x": dress(rng)}
    for _ in range(ctx.n(150, 2000)):
        k = rng.randint(1, 6)
        M = mats(rng, rng.randint(1, 4), k, k, rng.choice(STYLES))
        if rng.random() < 0.7:
            B = [[sum(h[i][j] for h in M) for j in range(k)] for i in range(k)]
        else:
            B = [[rng.randint(1, 9) for j in range(k)] for i in range(k)]
        yield {"op": "chi2", "in": {"A": M[0], "B": B}, "x": dress(rng)}


    for k in ctx.n((40,), (40, 130)):
        M = mats(rng, 2, k, k, "dense")
        yield {"op": "kullback", "in": {"M": M}, "x": dress(rng)}
        yield {"op": "chi2", "in": {"A": M[0], "B": [[a + b for a, b in zip(*r)] for r in zip(*M)]}, "x": dress(rng)}


def run(c):
    import numpy as np
    from giddy import markov

    def give(M):
        a = c["x"]["as"]
        if a == "int":
            return np.array(M)
        if a == "list":
            return [np.array(h, dtype=float) for h in M]
        if a == "lists":
            return M
        return np.array(M, dtype=float)

    if c["op"] == "homogeneity":
        h = markov.homogeneity(give(c["in"]["M"]))
        return {
            "Q": num(h.Q), "Qp": num(h.Q_p_value), "LR": num(h.LR), "LRp": num(h.LR_p_value), "dof": integer(h.dof),
            "Qtable": arr(h.Q_table), "LRtable": arr(h.LR_table), "p0": arr(h.p_h0), "p1": arr(h.p_h1),
            "total": integer(h.t_total), "m": integer(h.m), "k": integer(h.k),
            "A": [integer(v) for v in h.A], "b": [integer(v) for v in h.b_i],
            "Aim": iarr(h.A_im), "B": iarr(h.B),
        }
    if c["op"] == "kullback":
        r = markov.kullback(np.array(c["in"]["M"], dtype=int if c["x"]["as"] == "int" else float))
        return {"stat": num(r["Conditional homogeneity"]), "dof": integer(r["Conditional homogeneity dof"]),
                "p": num(r["Conditional homogeneity pvalue"])}
    t = int if c["x"]["as"] == "int" else float
    s, p, d = markov.chi2(np.array(c["in"]["A"], dtype=t), np.array(c["in"]["B"], dtype=t))
    return {"stat": num(s), "p": num(p), "dof": integer(d)}
