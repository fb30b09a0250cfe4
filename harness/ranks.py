"""Variables for the rank statistics: classes 1..k presented as values."""
import gen

VALUES = {
    "float": [-2.5, -1.0, 0.0, 0.1, 0.5, 1.0, 1.5, 2.25, 3.0, 7.5, 1e3, 1e9],
    "close": [1.0 + i * 2.220446049250313e-16 for i in range(12)],
    "huge": [-1.7e308, -1e300, -1e155, -1.0, 0.0, 1.0, 1e100, 1e155, 1e300, 1e308, 1.5e308, 1.7e308],
    "tiny": [-1e-300, -1e-310, -5e-324, 0.0, 5e-324, 1e-320, 1e-310, 1e-305, 1e-200, 1e-160, 1e-150, 1e-100],
    "inf": [float("-inf"), -3.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, float("inf")],
    "int": list(range(12)),
    "bigint": [-(2 ** 62), -(2 ** 53) - 1, -(2 ** 53), -1, 0, 1, 2 ** 40, 2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 62, 2 ** 62 + 1],
    "uint8": [0, 1, 2, 3, 50, 100, 128, 200, 201, 210, 254, 255],
    "uint64": [0, 1, 2, 3, 50, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1],
    "int8": [-128, -50, -20, -3, -1, 0, 1, 2, 50, 60, 100, 127],
    "float32": [-3.5, -1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.25, 3.0, 7.5, 1e3, 1e9],
}


def dressing(rng, k, doubles=False):
    kind = rng.choice([n for n in VALUES if not (doubles and n in ("bigint", "uint64"))])
    if k > 12 and kind not in ("int", "float"):
        kind = "int"
    off = rng.randint(0, 12 - k) if k <= 12 else 0
    return {"kind": kind, "off": off}


def dressings(rng, x, y):
    """Of two variables, sometimes on one and the same scale."""
    if rng.random() < 0.3:
        d = dressing(rng, max(x + y))
        return d, dict(d)
    return dressing(rng, max(x)), dressing(rng, max(y))


def present(cls, how):
    import numpy as np

    vals, off = VALUES[how["kind"]], how["off"]
    if max(cls) + off > 12:
        v = [c * 3 for c in cls]
    else:
        v = [vals[c - 1 + off] for c in cls]
    if how["kind"] in ("uint8", "uint64", "int8", "float32"):
        return np.array(v, dtype=how["kind"])
    if how["kind"] in ("int", "bigint"):
        return np.array(v, dtype="int64")
    return np.array(v, dtype=float)


def dense(v):
    """Classes 1..k in the order of the values."""
    m = {u: i + 1 for i, u in enumerate(sorted(set(v)))}
    return [m[u] for u in v]


def variable(rng, n, style=None):
    style = style or rng.choice(["distinct", "few", "few", "some", "binary", "const"])
    if style == "distinct":
        v = list(range(n))
        rng.shuffle(v)
    elif style == "const":
        v = [1] * n
    else:
        m = {"few": 3, "binary": 2, "some": max(2, n // 2)}[style]
        v = [rng.randrange(m) for _ in range(n)]
    return dense(v)


def pair(rng, n):
    x = variable(rng, n)
    r = rng.random()
    if r < 0.15:
        y = list(x)
    elif r < 0.3:
        y = dense([-c for c in x])
    elif r < 0.5:  # correlated
        y = dense([c + rng.choice([0, 0, 1, 2]) for c in x])
    else:
        y = variable(rng, n)
    return x, y


def graph(rng, n):
    return gen.nbl(gen.graph(rng, n, rng.choice(gen.GRAPHS)))


def weights(rng, nb, transform=None):
    """W over units 0.. with ids in order; weight values play no role."""
    wt = None
    if rng is not None and rng.random() < 0.4:
        wt = {i: [rng.choice([0.5, 1.0, 3.0]) for _ in r] for i, r in enumerate(nb)}
    return gen.make_w(gen.unnbl(nb), wt, transform, None, rng is not None and rng.choice([None, rng.randrange(1, 2**31)]))


LONG = ["administrative region north", "administrative region south", "administrative region", "administrative", "administrative region east", "administrative region North"]
REGIMES = [LONG, LONG[::-1], [2**53, 2**53 + 1, 2**53 + 2, -(2**53) - 1, -(2**53), 0], [1.0, 1.0 + 2**-52, 1.0 - 2**-53, 5e-324, 0.0, -5e-324],
           ["\u00e9", "e", "\u4e2d", "\u4e2d\u6587", " ", "E"], [False, True],
           ["a", "b", "c", "d", "e", "f"], [1, 2, 3, 4, 5, 6], [10, 2, 33, 4, -5, 60], ["south", "North", "10", "9", "", "x y"], [0.5, -1.0, 2.5, 7.0, 8.0, 9.0],
           ["county %d" % i for i in range(30)], [i * 37 % 101 for i in range(40)], [i / 7 for i in range(25)]]


def regimes(rng, n, k=None):
    """Regime numbers 1..k, all in use."""
    k = k or (rng.randint(1, min(n, 6)) if rng.random() < 0.8 else rng.randint(1, n))
    k = min(k, 40)
    r = list(range(1, k + 1)) + [rng.randint(1, k) for _ in range(n - k)]
    rng.shuffle(r)
    return r


def names(rng, reg):
    """Names for the regimes."""
    return rng.choice([r for r in REGIMES if len(r) >= max(reg)])


def present_regimes(reg, names):
    """Regime number r is shown as the r-th of the names in sorted order."""
    import numpy as np

    names = np.array(names)
    lab = np.sort(names)
    return lab[np.array(reg) - 1]
