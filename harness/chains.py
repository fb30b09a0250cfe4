"""Chains (tables of labels and transition matrices) for C02, C03 and C04."""
from fractions import Fraction

import gen
from core import num


def data_of(cnt):
    """A table of one-step histories with the given counts."""
    return [[i + 1, j + 1] for i, r in enumerate(cnt) for j, c in enumerate(r) for _ in range(c)] or [[1, 1]]


def floats(P):
    """Rows of rational strings as the doubles the code is given."""
    return [[num(float(Fraction(s))) for s in r] for r in P]


def matrix_of(cnt):
    return [[num(c / sum(r)) if sum(r) else "0" for c in r] for r in cnt]


STRUCT = ["dense", "sparse", "cycle", "upper", "blocks", "identity", "perm", "empty", "deterministic", "bipartite", "absorbing"]
MATRICES = STRUCT + ["rare"]  # a table with so many moves would be too long


def random_counts(rng, k, style):
    """Counts of a random chain with the given kind of structure."""
    big = rng.choice([3, 9, 40])
    z = [[0] * k for _ in range(k)]
    if style == "dense":
        z = [[rng.randint(1, big) for _ in range(k)] for _ in range(k)]
    elif style == "sparse":
        z = [[rng.randint(1, big) if rng.random() < 1.5 / k else 0 for _ in range(k)] for _ in range(k)]
        for r in z:
            if not any(r):
                r[rng.randrange(k)] = 1
    elif style == "cycle":
        for i in range(k):
            z[i][(i + 1) % k] = rng.randint(1, big)
    elif style == "upper":
        for i in range(k):
            for j in range(i, k):
                if rng.random() < 0.6:
                    z[i][j] = rng.randint(1, big)
            if not any(z[i]):
                z[i][rng.randint(i, k - 1)] = 1
    elif style == "blocks":
        b = [rng.randrange(3) for _ in range(k)]
        for i in range(k):
            mates = [j for j in range(k) if b[j] == b[i]]
            for j in mates:
                if rng.random() < 0.7:
                    z[i][j] = rng.randint(1, big)
            if b[i] == 0 and rng.random() < 0.6:
                z[i][rng.randrange(k)] += 1
            if not any(z[i]):
                z[i][rng.choice(mates)] = 1
    elif style == "identity":
        for i in range(k):
            z[i][i] = rng.randint(1, big)
    elif style == "perm":
        p = list(range(k))
        rng.shuffle(p)
        for i in range(k):
            z[i][p[i]] = rng.randint(1, big)
    elif style == "deterministic":
        for i in range(k):
            z[i][rng.randrange(k)] = rng.randint(1, big)
    elif style == "empty":
        z = [[rng.randint(0, 2) for _ in range(k)] if rng.random() < 0.6 else [0] * k for _ in range(k)]
    elif style == "bipartite":
        h = max(1, k // 2)
        for i in range(k):
            tgt = range(h, k) if i < h else range(h)
            for j in tgt:
                z[i][j] = rng.randint(1, big)
            if not any(z[i]):
                z[i][i] = 1
    elif style == "absorbing":
        z = [[rng.randint(0, big) for _ in range(k)] for _ in range(k)]
        for i in range(k):
            if rng.random() < 0.4:
                z[i] = [0] * k
                z[i][i] = 49 if rng.random() < 0.5 else rng.randint(1, 200)
            elif not any(z[i]):
                z[i][i] = 1
    elif style == "rare":  # some moves hardly ever happen
        big = rng.choice([10**3, 10**4, 10**5])
        z = [[rng.choice([0, 0, 1, 1, 3, big, big + 7]) for _ in range(k)] for _ in range(k)]
        for i in range(k):
            if rng.random() < 0.7:
                z[i][(i + 1) % k] = z[i][(i + 1) % k] or 1
            if rng.random() < 0.5:
                z[i][rng.choice([i, 0])] = big * rng.randint(1, 9)
            if not any(z[i]):
                z[i][i] = 1
    # states in no particular order
    p = list(range(k))
    rng.shuffle(p)
    return [[z[p[i]][p[j]] for j in range(k)] for i in range(k)]


def tiny(rng, P, most):
    """Some states are left very rarely."""
    k = len(P)
    for i in rng.sample(range(k), rng.randint(1, k)):
        q = 2.0 ** -rng.randint(3, most)
        P[i][:] = ["0"] * k
        P[i][i] = num(1 - q)
        P[i][rng.choice([j for j in range(k) if j != i])] = num(q)


def dressing(rng):
    """How the matrix is handed over."""
    return {"as": rng.choice(["array", "F", "list", "int"]), "alias": rng.random() < 0.3}


def give(P, how):
    import numpy as np
    from core import val

    A = np.array([[val(s) for s in r] for r in P])
    if how == "int" and (A == A.astype(int)).all():
        return A.astype(int)
    if how == "F":
        return np.asfortranarray(A)
    if how == "list":
        return A.tolist()
    return A


def label_case(rng, op, data, k):
    kinds = [n for n in gen.LABELS if len(gen.LABELS[n]) >= k]
    return {"op": op, "in": {"data": data, "k": k}, "x": {"labels": rng.choice(kinds), "fill": rng.random() < 0.5}}


def markov(c):
    import numpy as np
    from core import quiet, unsaid
    from giddy.markov import Markov

    lab = gen.np_labels(c["x"]["labels"])[: c["in"]["k"]]
    y = lab[np.array(c["in"]["data"]) - 1]
    return quiet(Markov, y, classes=lab, summary=False, **unsaid({"fill_empty_classes": c["x"]["fill"]}, fill_empty_classes=False))


def designs(ctx):
    """Cases of the design model: counts."""
    cs = ctx.model("ChainMachine", "ChainMachine2") + ctx.model("ChainMachine")
    if not ctx.quick:
        cs += ctx.model("ChainMachine", "ChainMachine4")
    return [c["cnt"] for c in cs]


def random_data(rng):
    k = rng.randint(1, 8)
    d = gen.table(rng, rng.randint(1, 14), rng.randint(2, 10), k, rng.choice(gen.STYLES))
    return d, k
