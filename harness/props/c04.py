"""C04: mean first passage times and their variances."""
import chains
from core import arr, quiet, unsaid

SPEC = "TraceChain"
ASSUMES = ["equations are judged to a relative residual of 1e-7", "second moments also to 1e-14 of the greatest of them"]


def mat(rng, cnt, fill=None):
    return {"op": "mfpt", "in": {"P": chains.matrix_of(cnt), "fill": rng.random() < 0.5 if fill is None else fill},
            "x": chains.dressing(rng)}


def reachable(cnt):
    k = len(cnt)
    R = [[i == j or cnt[i][j] > 0 for j in range(k)] for i in range(k)]
    for h in range(k):
        for i in range(k):
            for j in range(k):
                R[i][j] = R[i][j] or (R[i][h] and R[h][j])
    return R


def ergodic(cnt):
    return all(map(any, cnt)) and all(map(all, reachable(cnt)))


def cases(ctx):
    rng = ctx.sub("mc")
    for cnt in chains.designs(ctx):
        if any(not any(r) for r in cnt):
            yield mat(rng, cnt, True)
            if rng.random() < 0.3:
                yield mat(rng, cnt, False)
        else:
            yield mat(rng, cnt)
            if ergodic(cnt):
                yield {"op": "var", "in": {"P": chains.matrix_of(cnt)}, "x": chains.dressing(rng)}
        if rng.random() < 0.2:
            yield chains.label_case(rng, "Markov.mfpt", chains.data_of(cnt), len(cnt))
    rng = ctx.sub("random")
    for _ in range(ctx.n(300, 4000)):
        k = rng.randint(1, 9)
        cnt = chains.random_counts(rng, k, rng.choice(chains.MATRICES))
        yield mat(rng, cnt)
        if ergodic(cnt):
            yield {"op": "var", "in": {"P": chains.matrix_of(cnt)}, "x": chains.dressing(rng)}
    for _ in range(ctx.n(80, 1000)):  # moves that hardly ever happen
        c = mat(rng, chains.random_counts(rng, rng.randint(2, 6), rng.choice(chains.MATRICES)))
        chains.tiny(rng, c["in"]["P"], 26)
        yield c
    for k in ctx.n((12, 16), (12, 20, 30)):
        for style in ("dense", "sparse", "blocks", "cycle"):
            cnt = chains.random_counts(rng, k, style)
            yield mat(rng, cnt)
            if ergodic(cnt) and k < ctx.n(13, 21):
                yield {"op": "var", "in": {"P": chains.matrix_of(cnt)}, "x": chains.dressing(rng)}
    for k in ctx.n((20,), (24, 36)):
        for style in ("deterministic", "cycle", "identity"):
            yield mat(rng, chains.random_counts(rng, k, style))
    for _ in range(ctx.n(100, 1500)):
        d, k = chains.random_data(rng)
        yield chains.label_case(rng, "Markov.mfpt", d, k)


def run(c):
    from giddy import ergodic as e

    x = c["x"]
    if c["op"] == "Markov.mfpt":
        return arr(chains.markov(c).mfpt)
    P = chains.give(c["in"]["P"], x["as"])
    if c["op"] == "mfpt":
        f = e.fmpt if x["alias"] else e.mfpt
        return arr(quiet(f, P, **unsaid({"fill_empty_classes": c["in"]["fill"]}, fill_empty_classes=False)))
    v = e.var_fmpt_ergodic if x["alias"] else e.var_mfpt_ergodic
    return {"mean": arr(quiet(e.mfpt, P)), "var": arr(quiet(v, P))}
