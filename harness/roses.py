"""Roses over panels and weights."""
import panels
from core import arr, iarr, num, quiet, unsaid

INTS = ["int64", "int32", "int8", "uint8", "uint16", "uint64"]


def case(rng, op, y, dy, w, k):
    vals = [v for r in y for v in r]
    kinds = ["float64"]
    if all(v == int(v) and abs(v) < 120 for v in vals):
        kinds += [d for d in INTS if min(vals) >= 0 or not d.startswith("u")]
    return {"op": op,
            "in": {"y": panels.enc(y), "w": panels.pairs_of(w), "k": k, "exact": bool(dy and panels.dyadic(w))},
            "x": {"w": w, "dtype": rng.choice(kinds), "order": rng.choice("CF")}}


def random_case(rng, op, n=None, k=None, wstyle=None, ystyle=None, t=None):
    n = n or rng.randint(2, 12)
    t = t or rng.choice([2, 2, 2, 2, 2, 2, 3, 5, 9, 30])
    w = panels.weights(rng, n, wstyle, odd=True)
    r = rng.random()
    if ystyle is None and r < 0.25:  # few different moves: many on edges
        y, dy = [[float(rng.choice([1, 2, 3])) for _ in range(t)] for _ in range(n)], True
    elif ystyle is None and r < 0.35:  # own changes that match the neighbours'
        a, b = [float(rng.randint(0, 3)) for _ in range(n)], rng.choice([-1.0, 0.0, 1.0, 2.0])
        y, dy = [[v] * (t - 1) + [v + b * rng.choice([1, 1, -1])] for v in a], True
    else:
        y, dy = panels.panel(rng, n, t, ystyle)
    return case(rng, op, y, dy, w, k or rng.choice([4, 4, 8, 8, 1, 2, 3, 5, 6, 7, 9, 10, 12, 16, 20, 24, 36]))


def build(c):
    import numpy as np
    from giddy.directional import Rose

    y = np.array(panels.dec(c["in"]["y"]), dtype=c["x"]["dtype"], order=c["x"]["order"])
    return quiet(Rose, y, panels.make(c["x"]["w"]), **unsaid({"k": c["in"]["k"]}, k=8))


def observed(r):
    return {"Y": arr(r.Y), "lag": arr(r.lag), "wY": arr(r.wY), "cuts": arr(r.cuts), "bins": arr(r.bins), "width": num(r.sw),
            "r": arr(r.r), "theta": arr(r.theta), "counts": iarr(r.counts)}
