"""C02: structure of the chain and sojourn times."""
import chains
from core import arr

SPEC = "TraceChain"
ASSUMES = ["class labels can be told apart by numpy"]


def cases(ctx):
    rng = ctx.sub("mc")
    for cnt in chains.designs(ctx):
        yield chains.label_case(rng, "structure", chains.data_of(cnt), len(cnt))
        if rng.random() < 0.2:
            yield {"op": "sojourn", "in": {"P": chains.matrix_of(cnt)}, "x": chains.dressing(rng)}
    rng = ctx.sub("random")
    for _ in range(ctx.n(150, 2000)):
        d, k = chains.random_data(rng)
        yield chains.label_case(rng, "structure", d, k)
    for _ in range(ctx.n(250, 3000)):
        k = rng.randint(1, 9)
        cnt = chains.random_counts(rng, k, rng.choice(chains.STRUCT))
        if rng.random() < 0.6:
            yield chains.label_case(rng, "structure", chains.data_of(cnt), k)
        else:
            yield {"op": "sojourn", "in": {"P": chains.matrix_of(cnt)}, "x": chains.dressing(rng)}
    for k in (12, 20, 30):
        for style in ("dense", "sparse", "blocks", "cycle"):
            yield chains.label_case(rng, "structure", chains.data_of(chains.random_counts(rng, k, style)), k)
    for k in ctx.n([130], [130, 200, 280]):  # more states, and classes, than a byte counts
        for style in ("identity", "perm", "upper1", "cycle"):
            cnt = chains.random_counts(rng, k, style) if style != "upper1" else [[int(j == min(i + 1, k - 1)) for j in range(k)] for i in range(k)]
            yield chains.label_case(rng, "structure", chains.data_of(cnt), k)
    # states that are left very rarely, beside others that never are
    for _ in range(ctx.n(60, 400)):
        k = rng.randint(2, 6)
        P = chains.matrix_of(chains.random_counts(rng, k, rng.choice(chains.MATRICES)))
        chains.tiny(rng, P, 50)
        yield {"op": "sojourn", "in": {"P": P}, "x": chains.dressing(rng)}
    # states that are left once in thousands of moves
    for r in ctx.n([2500, 5000], [2500, 5000, 12000]):
        yield chains.label_case(rng, "structure", [[1, 1]] * r + [[1, 2]] + [[2, 2]] * 50 + [[3, 1]] * 3, 3)
        yield chains.label_case(rng, "structure", [[1, 2]] * r + [[1, 3]] + [[2, 1]] * 50 + [[3, 3], [3, 4], [4, 3]], 4)
    # absorbing states with many observations; states that are nearly absorbing
    for r in list(range(1, 120, 3)) + [161, 187, 196, 200, 255, 500]:
        yield chains.label_case(rng, "structure", [[1, 1]] * r + [[2, 1]], 2)
        yield chains.label_case(rng, "structure", [[1, 1]] * r + [[1, 2]] + [[2, 2]] * (r // 2), 2)


def lists(ls):
    if ls is None:
        return []
    return [[int(v) + 1 for v in l] for l in ls]


def run(c):
    import numpy as np
    from core import quiet
    from giddy.markov import sojourn_time

    if c["op"] == "sojourn":
        return arr(quiet(sojourn_time, chains.give(c["in"]["P"], "array")))
    m = chains.markov(c)
    return {
        "cc": lists(m.cclasses_indices), "ncc": int(m.num_cclasses),
        "rc": lists(m.rclasses_indices), "nrc": int(m.num_rclasses),
        "tc": lists(m.tclasses_indices), "ntc": int(m.num_tclasses),
        "as": [int(np.ravel(v)[0]) + 1 for v in m.astates_indices], "nas": int(m.num_astates),
        "sojourn": arr(quiet(lambda: m.sojourn_time)),
    }
