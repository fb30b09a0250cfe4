"""C03: steady state distributions."""
import chains
from core import arr, quiet, unsaid

SPEC = "TraceChain"
ASSUMES = ["the solutions of quantecon and numpy are taken as they come back; residuals are judged to 1e-10"]


def mat(rng, cnt, fill=None):
    return {"op": "steady", "in": {"P": chains.matrix_of(cnt), "fill": rng.random() < 0.5 if fill is None else fill},
            "x": chains.dressing(rng)}


def cases(ctx):
    rng = ctx.sub("mc")
    for cnt in chains.designs(ctx):
        if any(not any(r) for r in cnt):
            yield mat(rng, cnt, True)
            if rng.random() < 0.3:
                yield mat(rng, cnt, False)
        else:
            yield mat(rng, cnt)
        if rng.random() < 0.2:
            yield chains.label_case(rng, "Markov.steady", chains.data_of(cnt), len(cnt))
    rng = ctx.sub("random")
    for _ in range(ctx.n(300, 4000)):
        k = rng.randint(1, 9)
        yield mat(rng, chains.random_counts(rng, k, rng.choice(chains.MATRICES)))
    for _ in range(ctx.n(120, 1500)):  # moves that hardly ever happen
        c = mat(rng, chains.random_counts(rng, rng.randint(2, 6), rng.choice(chains.MATRICES)))
        chains.tiny(rng, c["in"]["P"], 30)
        yield c
    for k in (12, 20, 30):
        for style in ("dense", "sparse", "blocks", "cycle"):
            yield mat(rng, chains.random_counts(rng, k, style))
    for k in ctx.n((140,), (140, 200, 300)):
        for style in ("sparse", "cycle", "identity", "upper", "perm"):
            yield mat(rng, chains.random_counts(rng, k, style))
    for _ in range(ctx.n(100, 1500)):
        d, k = chains.random_data(rng)
        yield chains.label_case(rng, "Markov.steady", d, k)


def run(c):
    from giddy.ergodic import steady_state

    if c["op"] == "steady":
        return arr(quiet(steady_state, chains.give(c["in"]["P"], c["x"]["as"]), **unsaid({"fill_empty_classes": c["in"]["fill"]}, fill_empty_classes=False)))
    return arr(chains.markov(c).steady_state)
