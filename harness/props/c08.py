"""C08: quadrants, move types and significance of LISA_Markov."""
import lisa
from core import arr, iarr, num

SPEC = "TraceLisa"
ASSUMES = ["values vary within every period, every unit has a neighbour",
           "deviations within 1e-9 (relative) of zero may take either sign unless the arithmetic is exact",
           "expected moves are judged on positive values only"]


def cases(ctx):
    cs = ctx.model("LisaMachine")
    if not ctx.quick:
        cs += ctx.model("LisaMachine", "LisaMachineT") + ctx.model("LisaMachine", "LisaMachineT2")
    rng = ctx.sub("mc")
    for c in rng.sample(cs, min(len(cs), ctx.n(200, 4000))):
        yield lisa.given(rng, c["y"], c["w"])
    rng = ctx.sub("random")
    for _ in range(ctx.n(170, 2500)):
        n = rng.choice([4, 8, 16, rng.randint(3, 18)])
        yield lisa.make(rng, n, rng.randint(2, 8), "LISA_Markov")
    for n, t in [(100, 5), (200, 2), (64, 12), (300, 3), (6, 150)]:
        yield lisa.make(rng, n, t, "LISA_Markov")
        yield lisa.make(rng, n, 2 if t < 100 else t, "LISA_Markov", 9)
    for _ in range(ctx.n(60, 400)):
        yield lisa.make(rng, rng.randint(4, 14), rng.randint(2, 5), "LISA_Markov", rng.choice([9, 19, 49]))
    for _ in range(ctx.n(40, 500)):
        yield lisa.make(rng, rng.choice([4, 8]), rng.randint(2, 5), "LISA_Markov", 0, rng.choice(["few", "ints", "negative"]), "Rpow2")


def run(c):
    m, level = lisa.build(c)
    out = {"q": iarr(m.q), "classes": [int(v) for v in m.classes], "transitions": iarr(m.transitions), "p": arr(m.p),
           "moves": iarr(m.move_types), "expected": arr(m.expected_t), "chi2": [num(v) for v in m.chi_2], "level": num(float(level))}
    if hasattr(m, "significant_moves"):
        out["sig"] = iarr(m.significant_moves)
    if hasattr(m, "p_values"):
        out["pvalues"] = arr(m.p_values)
    return out
