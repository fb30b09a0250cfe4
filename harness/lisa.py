"""LISA Markov cases for C08 and C09."""
import panels
from core import num


def smooth(rng, n, t, w):
    """Values that vary slowly over the neighbour graph, with a moving hot spot."""
    dist = []
    for c in range(n):
        d = {c: 0}
        todo = [c]
        while todo:
            i = todo.pop(0)
            for j in w["nb"][i]:
                if j not in d:
                    d[j] = d[i] + 1
                    todo.append(j)
        dist.append([d.get(i, 9) for i in range(n)])
    spots = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
    cols = []
    for _ in range(t):
        cols.append([sum(10.0 / (1 + dist[c][u]) for c in spots) + rng.random() * rng.choice([0.2, 1, 3]) + 0.1 for u in range(n)])
        k = rng.randrange(len(spots))
        nxt = w["nb"][spots[k]]
        spots[k] = rng.choice(nxt) if nxt and rng.random() < 0.8 else rng.randrange(n)
    return [[cols[s][u] for s in range(t)] for u in range(n)]


def make(rng, n, t, op, perms=0, ystyle=None, wstyle=None, kind=None):
    w = panels.weights(rng, n, wstyle, kind)
    while True:
        style = ystyle or rng.choice(["smooth", "smooth", "random", "walk+", "ints", "few", "negative", "shares"])
        if style == "smooth":
            y, dy = smooth(rng, n, t, w), False
        elif style == "walk+":
            y, dy = panels.panel(rng, n, t, "walk")
            y = [[v + 20 for v in r] for r in y]
        else:
            y, dy = panels.panel(rng, n, t, style)
        if all(len({r[s] for r in y}) > 1 for s in range(t)):
            break
    std = dict(w, transform="r")
    zexact = dy and (n & (n - 1)) == 0
    two = all(len({x for _, x in r}) == 1 and len(r) in (1, 2) for r in panels.pairs_of(std))
    return {"op": op,
            "in": {"y": panels.enc(y), "w": panels.pairs_of(std), "nb": [[j + 1 for j in r] for r in w["nb"]],
                   "geoda": rng.random() < 0.4, "permutations": perms, "zexact": zexact, "lexact": zexact and two},
            "x": {"w": w, "seed": rng.randrange(2**31), "level": rng.choice([0.05, 0.05, 0.1, 0.2, 0.3, 0.01, 0.45, "pick", "pick"])}}


def given(rng, y, W):
    """A case of the model: four units of small integers."""
    a, b = rng.choice([0.5, 1.0, 16.0]), rng.choice([0.0, 0.25, -2.0, 64.0])
    y = [[a * v + b for v in r] for r in y]
    w = {"nb": [[j - 1 for j, _ in r] for r in W], "wt": None, "transform": rng.choice([None, "r"]), "ids": None}
    return {"op": "LISA_Markov",
            "in": {"y": panels.enc(y), "w": panels.pairs_of(dict(w, transform="r")), "nb": [[j for j, _ in r] for r in W],
                   "geoda": rng.random() < 0.5, "permutations": 0, "zexact": True, "lexact": True},
            "x": {"w": w, "seed": rng.randrange(2**31), "level": 0.05}}


def build(c):
    import numpy as np
    from core import quiet, unsaid
    from giddy.markov import LISA_Markov

    i, x = c["in"], c["x"]
    y = panels.dec(i["y"])
    w = panels.make(x["w"])
    kw = unsaid({"permutations": i["permutations"], "geoda_quads": i["geoda"]}, permutations=0, geoda_quads=False)
    level = x["level"]
    if level == "pick":
        level = 0.05
        if i["permutations"]:
            np.random.seed(x["seed"])
            p = quiet(LISA_Markov, y, w, **kw).p_values
            ok = sorted(v for v in p.ravel().tolist() if v == v)
            if ok:
                level = ok[x["seed"] % len(ok)]
    np.random.seed(x["seed"])
    return quiet(LISA_Markov, y, w, **unsaid({"significance_level": level}, significance_level=0.05), **kw), level
