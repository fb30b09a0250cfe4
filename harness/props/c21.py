"""C21: matrix utilities."""
from core import arr, farr, integer, num

SPEC = "TraceMatrix"
ASSUMES = ["numpy's shuffle is uniform; frequencies are accepted within seven standard deviations",
           "row sums of floats are those numpy computes; rows are made of dyadic numbers"]
DT = ["float", "int", "float32", "F", "view", "uint8", "int8"]


def A(rows, sh=None):
    flat = [v for r in rows for v in r]
    return {"sh": sh or [len(rows), len(rows[0])], "d": [num(v) for v in flat]}


def x(rng):
    return {"as": rng.choice(DT + ["list"]), "seed": rng.randrange(2**31), "ids": rng.choice(["list", "array"])}


def cases(ctx):
    fill = ctx.model("MatrixMachine", thorough_cfg="MatrixMachineT") + ctx.model("MatrixMachine", "MatrixMachine2")
    perms = ctx.model("MatrixMachine", "MatrixMachineS", thorough_cfg="MatrixMachineST")
    rng = ctx.sub("mc")
    cs = rng.sample(fill, min(len(fill), ctx.n(300, 10**6)))
    for c in cs:
        yield {"op": "fill", "in": {"A": A(c["A"])}, "x": x(rng)}
        if rng.random() < 0.15:
            yield {"op": "lower", "in": {"A": A(c["A"])}, "x": x(rng)}
    for _ in range(ctx.n(60, 2000)):
        st = [rng.choice(cs)["A"] for _ in range(rng.randint(1, 5))]
        k = len(st[0])
        st = [m for m in st if len(m) == k]
        yield {"op": "fill", "in": {"A": A([r for m in st for r in m], [len(st), k, k])}, "x": x(rng)}
    for c in perms:
        yield {"op": "shuffle", "in": {"A": A(c["A"]), "ids": c["ids"]}, "x": x(rng)}
    rng = ctx.sub("random")
    for _ in range(ctx.n(150, 2000)):
        k = rng.randint(1, 9) if rng.random() < 0.9 else rng.randint(12, 30)
        pick = rng.choice([lambda: rng.randint(0, 3) / 4, lambda: rng.choice([0, 0, 0, 1]), lambda: rng.randint(-4, 4) / 2,
                           lambda: rng.choice([0, 0, 1, 1e-9, 2.0**-60, 1e-300, 5e-324, 1e300])])
        M = [[pick() for _ in range(k)] if rng.random() < 0.7 else [0] * k for _ in range(k)]
        yield {"op": "fill", "in": {"A": A(M)}, "x": x(rng)}
        if k < 10 and rng.random() < 0.5:
            m = rng.randint(1, 6)
            yield {"op": "fill", "in": {"A": A([[pick() for _ in range(k)] if rng.random() < 0.7 else [0] * k for _ in range(m * k)], [m, k, k])}, "x": x(rng)}
        yield {"op": "lower", "in": {"A": A([[rng.randint(0, 99) for _ in range(k)] for _ in range(k)])}, "x": x(rng)}
        ids = list(range(1, k + 1))
        if rng.random() < 0.5:
            rng.shuffle(ids)
        yield {"op": "shuffle", "in": {"A": A([[rng.randint(0, 99) for _ in range(k)] for _ in range(k)]), "ids": ids}, "x": x(rng)}
    for k in ctx.n([140], [140, 270, 300]):
        yield {"op": "fill", "in": {"A": A([[0] * k if rng.random() < 0.3 else [rng.choice([0, 1]) for _ in range(k)] for _ in range(k)])}, "x": x(rng)}
        ids = list(range(1, k + 1))
        M = [[rng.randint(0, 99) for _ in range(k)] for _ in range(k)]
        yield {"op": "lower", "in": {"A": A(M)}, "x": x(rng)}
        yield {"op": "shuffle", "in": {"A": A(M), "ids": ids}, "x": x(rng)}
    for m, k in ctx.n([(300, 2)], [(300, 2), (300, 5), (5, 60)]):
        yield {"op": "fill", "in": {"A": A([[0] * k if rng.random() < 0.4 else [rng.choice([0, 1]) for _ in range(k)] for _ in range(m * k)], [m, k, k])}, "x": x(rng)}
    yield {"op": "fill", "in": {"A": {"sh": [3], "d": ["0", "1", "0"]}}, "x": {"as": "float"}}
    yield {"op": "fill", "in": {"A": {"sh": [1, 1, 1, 1], "d": ["0"]}}, "x": {"as": "float"}}
    for k, R in [(2, 400), (3, 1200), (4, 2400), (4, 2400)]:
        yield {"op": "shuffle-draws", "in": {"k": k, "R": ctx.n(1, 4) * R}, "x": dict(x(rng), chained=rng.random() < 0.5)}


def give(c):
    import numpy as np

    np.seterr(all="ignore")
    a, how = farr(c["in"]["A"]), c["x"]["as"]
    if how == "F":
        return np.asfortranarray(a)
    if how == "view":  # not contiguous
        b = np.zeros([2 * s for s in a.shape])
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "list":
        return a.tolist() if c["op"] == "fill" else a
    if how == "float32" and (a != a.astype(how)).any():
        return a
    if how in ("int", "uint8", "int8") and ((a != a.astype(int)).any() or (how == "uint8" and (a < 0).any())):
        return a
    return a.astype(how)


def run(c):
    import numpy as np
    from giddy.util import fill_empty_diagonals, get_lower, shuffle_matrix

    if c["op"] == "shuffle-draws":
        np.random.seed(c["x"]["seed"])
        k, res = c["in"]["k"], []
        ids = list(range(k))
        X = np.arange(k * k).reshape(k, k)
        for _ in range(c["in"]["R"]):
            if not c["x"]["chained"]:
                ids = list(range(k))
            shuffle_matrix(X, ids)
            res.append([integer(i) + 1 for i in ids])
        return {"v": res}
    a = give(c)
    if c["op"] == "fill":
        r = fill_empty_diagonals(a)
        return {"result": arr(r), "argument": arr(np.array(a))}
    if c["op"] == "lower":
        r = get_lower(a)
        return {"result": arr(r), "argument": arr(a)}
    np.random.seed(c["x"]["seed"])
    ids = [i - 1 for i in c["in"]["ids"]]
    if c["x"]["ids"] == "array":
        ids = np.array(ids)
    r = shuffle_matrix(a, ids)
    return {"result": arr(r), "argument": arr(a), "ids": [integer(i) + 1 for i in ids]}
