"""Panels of values and weights for the spatial analyses."""
from fractions import Fraction

import gen
from core import num, val


def neighbours(rng, n, kind=None):
    return gen.graph(rng, n, kind or rng.choice(gen.GRAPHS))


def directed(rng, n):
    nb = {}
    for i in range(n):
        o = [j for j in range(n) if j != i]
        nb[i] = rng.sample(o, rng.randint(1, min(3, len(o))))
    return nb


def weights(rng, n, style=None, kind=None, odd=False):
    """{"nb", "wt", "transform"}: what is handed to libpysal."""
    if odd and style is None and rng.random() < 0.25:
        style, odd = rng.choice(["B", "R", "real", "realR", "directed", "directedR"]), rng.choice(["islands", "selves", "both"])
    else:
        odd = None
    style = style or rng.choice(["B", "R", "R", "Rpow2", "real", "realR", "directed", "directedR"])
    if style == "Rpow2":
        kind = kind or rng.choice(["ring", "path", "pairs", "star"] if (n - 1) & (n - 2) == 0 else ["ring", "path", "pairs"])
    nb = directed(rng, n) if style.startswith("directed") else neighbours(rng, n, kind)
    if odd in ("islands", "both"):  # units without neighbours
        away = set(rng.sample(range(n), rng.randint(1, max(1, n // 2))))
        nb = {i: [] if i in away else [j for j in nb[i] if j not in away] for i in nb}
    if odd in ("selves", "both"):  # units that are among their neighbours
        nb = {i: list(nb[i]) + [i] * (len(nb[i]) > 0 and rng.random() < 0.6) for i in nb}
    wt = None
    if style.startswith("real"):
        wt = {i: [rng.choice([0.5, 1.0, 2.0, rng.random() + 0.05]) for _ in nb[i]] for i in nb}
    tr = "r" if style in ("R", "Rpow2", "realR", "directedR") else rng.choice([None, None, "b", "o"] if odd else [None, None, "b", "d", "v", "o"])
    return {"nb": [list(nb[i]) for i in range(n)], "wt": None if wt is None else [wt[i] for i in range(n)],
            "transform": tr, "ids": rng.choice([None, None, None, "str", "int"]), "order": rng.choice([None, None, rng.randrange(1, 2**31)])}


def make(w):
    n = len(w["nb"])
    nb = {i: w["nb"][i] for i in range(n)}
    wt = None if w["wt"] is None else {i: w["wt"][i] for i in range(n)}
    ids = None
    if w.get("ids") == "str":
        ids = ["u%d" % ((i * 7) % 11 * 100 + i) for i in range(n)]
    if w.get("ids") == "int":  # numbers that are no positions
        ids = [(i * 7 + 3) % n if n % 7 else i * 5 + 100 for i in range(n)]
    return gen.make_w(nb, wt, w["transform"], ids, w.get("order"))


def pairs_of(w):
    """The weights as the specification sees them: exact values of the doubles."""
    res = []
    if w["transform"] in ("d", "v"):
        W = make(w)
        for i, ns in zip(W.id_order, w["nb"]):
            res.append([[j + 1, num(float(x))] for j, x in zip(ns, W.weights[i])])
        return res
    for i, ns in enumerate(w["nb"]):
        ws = [1.0] * len(ns) if w["wt"] is None or w["transform"] == "b" else list(w["wt"][i])
        if w["transform"] == "r":
            tot = sum(ws)
            ws = [x / tot for x in ws]
        res.append([[j + 1, num(float(x))] for j, x in zip(ns, ws)])
    return res


def dyadic(w):
    return all(Fraction(x).denominator <= 64 for r in pairs_of(w) for _, x in r)


def panel(rng, n, t, style=None):
    """Values as floats, on any scale; returns (rows, dyadic)."""
    rows, dyadic = plain_panel(rng, n, t, style)
    f = 2.0 ** rng.choice([0, 0, 0, 0, -50, -34, -12, 10, 40])
    return [[v * f for v in r] for r in rows], dyadic


def plain_panel(rng, n, t, style=None):
    style = style or rng.choice(["random", "ints", "ints", "few", "walk", "shares", "const", "negative"])
    if style == "random":
        return [[rng.random() for _ in range(t)] for _ in range(n)], False
    if style == "ints":
        return [[float(rng.randint(0, 12)) for _ in range(t)] for _ in range(n)], True
    if style == "few":
        return [[float(rng.choice([1, 2, 5])) for _ in range(t)] for _ in range(n)], True
    if style == "negative":
        return [[rng.randint(-8, 8) / 4 for _ in range(t)] for _ in range(n)], True
    if style == "const":
        return [[3.0] * t for _ in range(n)], True
    if style == "walk":
        rows = []
        for _ in range(n):
            v = [rng.uniform(0, 10)]
            while len(v) < t:
                v.append(v[-1] + rng.gauss(0, 1))
            rows.append(v)
        return rows, False
    if style == "shares":
        cols = []
        for _ in range(t):
            c = [rng.randint(1, 50) for _ in range(n)]
            m = sum(c) / n
            cols.append([x / m for x in c])
        return [[cols[s][u] for s in range(t)] for u in range(n)], False
    raise ValueError(style)


def enc(rows):
    return [[num(float(v)) for v in r] for r in rows]


def dec(rows):
    import numpy as np

    return np.array([[val(s) for s in r] for r in rows])
