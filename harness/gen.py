"""Generators shared by the properties' modules."""
import itertools
from fractions import Fraction

# Label sets in sorted order (as numpy sorts them), longest first when asked.
LABELS = {
    "int": list(range(12)),
    "int1": list(range(1, 13)),
    "gap": [-70, -3, 0, 4, 5, 11, 19, 20, 100, 101, 999, 1000],
    "float": [-2.5, -1.0, 0.0, 0.1, 0.5, 1.0, 1.5, 2.25, 3.0, 7.5, 1e3, 1e9],
    "str": ["A", "B", "a", "aa", "ab", "b", "c", "d1", "d10", "d2", "x", "zz"],
    "digits": ["0", "1", "10", "11", "2", "20", "3", "4", "5", "6", "7", "8"],
    "many": list(range(100, 140)),
    "wide": list(range(-40, 600, 2)),
    "int8": [-100, -50, -20, -3, -1, 0, 1, 2, 50, 60, 100, 127],
    "uint8": [0, 1, 2, 3, 50, 100, 128, 200, 201, 210, 254, 255],
    "bool": [False, True],
    "long": ["region north-east " * 7 + a for a in "ABCDEFGHIJ"] + ["region north-east " * 7 + "JJ", "region north-east " * 7 + "JK"],
    "unicode": ["", " ", "A b", "Z", "z", "\u00c4", "\u00df", "\u00e9", "\u0394", "\u4e2d", "\u4e2d\u6587", "\U0001f600"],
    "bigint": [-(2**62) - 1, -(2**62), -(2**53) - 1, -(2**53), 0, 2**53, 2**53 + 1, 2**53 + 2, 2**53 + 3, 2**62, 2**62 + 1, 2**63 - 1],
    "close": [1.0 + i * 2.220446049250313e-16 for i in range(12)],
    "tiny": [-1e-300, -1e-310, -5e-324, 0.0, 5e-324, 1e-320, 1e-310, 1e-305, 1e-200, 1e-160, 1e-12, 1e-9],
    "float32": [-3.5, -1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.25, 3.0, 7.5, 1e3, 2.0**24],
    "object": ["A", "B", "a", "aa", "ab", "b", "c", "d1", "d10", "d2", "x", "zz"],
}
DTYPES = {"int8": "int8", "uint8": "uint8", "float32": "float32", "object": object}


def np_labels(kind, k=None):
    import numpy as np

    ls = LABELS[kind]
    return np.array(ls, dtype=DTYPES.get(kind))


def table(rng, n, t, k, style="uniform"):
    """A table of classes 1..k."""
    if style == "uniform":
        return [[rng.randint(1, k) for _ in range(t)] for _ in range(n)]
    if style == "sticky":
        rows = []
        for _ in range(n):
            r = [rng.randint(1, k)]
            while len(r) < t:
                r.append(r[-1] if rng.random() < 0.8 else rng.randint(1, k))
            rows.append(r)
        return rows
    if style == "monotone":  # reducible chains
        rows = []
        for _ in range(n):
            r = [rng.randint(1, k)]
            while len(r) < t:
                r.append(min(k, r[-1] + (rng.random() < 0.3)))
            rows.append(r)
        return rows
    if style == "blocks":  # several closed classes
        rows = []
        half = max(1, k // 2)
        for i in range(n):
            lo, hi = (1, half) if i % 2 else (half + 1 if half < k else k, k)
            r = [rng.randint(lo, hi) for _ in range(t)]
            if rng.random() < 0.2:
                r[0] = rng.randint(1, k)
            rows.append(r)
        return rows
    if style == "cycle":
        rows = []
        for _ in range(n):
            s = rng.randint(0, k - 1)
            rows.append([(s + j) % k + 1 for j in range(t)])
        return rows
    if style == "constant":
        c = rng.randint(1, k)
        return [[c] * t for _ in range(n)]
    raise ValueError(style)


STYLES = ["uniform", "sticky", "monotone", "blocks", "cycle", "constant"]


def compress(data):
    """Renumber the classes in use as 1..k, keeping their order."""
    used = sorted({c for r in data for c in r})
    m = {c: i + 1 for i, c in enumerate(used)}
    return [[m[c] for c in r] for r in data], len(used)


def order_of(rng, k):
    p = list(range(1, k + 1))
    rng.shuffle(p)
    return p


# ------------------------------------------------------------- weights -----
def graph(rng, n, kind):
    """A symmetric neighbour structure without isolated units: {i: [j...]}."""
    e = set()
    if kind == "path":
        e = {(i, i + 1) for i in range(n - 1)}
    elif kind == "ring":
        e = {(i, (i + 1) % n) for i in range(n)} if n > 2 else {(0, 1)}
    elif kind == "complete":
        e = set(itertools.combinations(range(n), 2))
    elif kind == "star":
        e = {(0, i) for i in range(1, n)}
    elif kind == "lattice":
        import math

        c = max(1, int(math.sqrt(n)))
        for i in range(n):
            if (i + 1) % c and i + 1 < n:
                e.add((i, i + 1))
            if i + c < n:
                e.add((i, i + c))
    elif kind == "random":
        for i in range(1, n):
            e.add((rng.randrange(i), i))
        for _ in range(rng.randint(0, n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                e.add((min(a, b), max(a, b)))
    elif kind == "pairs":
        e = {(i, i + 1) for i in range(0, n - 1, 2)}
        if n % 2:
            e.add((n - 2, n - 1))
    nb = {i: [] for i in range(n)}
    for a, b in e:
        if a != b:
            nb[a].append(b)
            nb[b].append(a)
    for i in nb:
        nb[i] = sorted(set(nb[i]))
        if rng is not None and rng.random() < 0.3:
            rng.shuffle(nb[i])
    return nb


GRAPHS = ["path", "ring", "complete", "star", "lattice", "random", "pairs"]


def make_w(nb, weights=None, transform=None, ids=None, order=None):
    """libpysal weights from {i: [j...]} and optional {i: [w...]}; the units
    are in the order of their numbers, the dictionaries in any order."""
    import random

    import libpysal

    units = sorted(nb)
    seq = list(units)
    if order:
        random.Random(order).shuffle(seq)
    name = dict(zip(units, units if ids is None else ids))
    w = libpysal.weights.W(
        {name[i]: [name[j] for j in nb[i]] for i in seq}, None if weights is None else {name[i]: list(weights[i]) for i in seq},
        id_order=[name[i] for i in units], silence_warnings=True)
    if transform:
        w.transform = transform
    return w


def nbl(nb):
    """JSON form: list of neighbour lists, units counted from 1."""
    return [[j + 1 for j in nb[i]] for i in range(len(nb))]


def unnbl(l):
    return {i: [j - 1 for j in r] for i, r in enumerate(l)}
