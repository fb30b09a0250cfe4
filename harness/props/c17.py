"""C17: predefined cost schemes of sequence distances."""
import seqs
from props import c16

SPEC = "TraceAlignment"
ASSUMES = ["markov and transition distances of sequences of different lengths are not defined: they may be rejected"]
TYPES = ["hamming", "interval", "arbitrary", "markov", "tran"]


def case(rng, op, ss, k, t, form=None, **extra):
    name = t
    if t in TYPES and rng.random() < 0.2:
        name = rng.choice([t.upper(), t.capitalize()])
    return {"op": op, "in": {"seqs": ss, "type": t or ""}, "x": dict(seqs.dressing(rng, k, form), type=name, **extra)}


def cases(ctx):
    cs = ctx.model("AlignmentMachine", thorough_cfg="AlignmentMachineT") + ctx.model("AlignmentMachine", "AlignmentMachine3", thorough_cfg="AlignmentMachineT3")
    pairs = sorted({(tuple(c["a"]), tuple(c["b"])) for c in cs})
    rng = ctx.sub("mc")
    for i, (a, b) in enumerate(rng.sample(pairs, min(len(pairs), ctx.n(250, 2000)))):
        ss, k = seqs.dense([list(a), list(b)])
        yield case(rng, "scheme", ss, k, TYPES[i % 5])
    rng = ctx.sub("random")
    for i in range(ctx.n(300, 3000)):
        t = TYPES[i % 5]
        ss, k = seqs.random_set(rng, longest=ctx.n(6, 8), equal=rng.random() < (0.85 if t != "interval" else 0.5))
        # one or none of the two costs does not make them complete
        yield case(rng, "scheme", ss, k, t, **({"given": rng.choice(["sub", "indel"])} if rng.random() < 0.15 else {}))
    for i in range(ctx.n(20, 100)):
        t = rng.choice(TYPES)
        ss, k = seqs.many_classes(rng)
        if t != "interval":
            m = max(map(len, ss))
            ss = [(s * m)[:m] for s in ss]
        yield case(rng, "scheme", ss, k, t)
    for i in range(ctx.n(20, 150)):
        ss, k = seqs.long_set(rng, ctx.n(40, 120))
        yield case(rng, "scheme", ss, k, TYPES[i % 5])
    rng = ctx.sub("complete")  # complete costs take precedence over the type
    for i in range(ctx.n(120, 1500)):
        ss, k = seqs.random_set(rng)
        c = c16.case(rng, ss, k)
        c["x"]["type"] = rng.choice(TYPES + ["hammings", "Tran"])
        yield c
    rng = ctx.sub("reject")
    for i in range(ctx.n(60, 300)):
        ss, k = seqs.random_set(rng)
        t = rng.choice([None, None, "hammings", "", "om", "intervals", "substitution", "trans", "mark", "markov "])
        yield case(rng, "reject", ss, k, t, given=rng.choice(["", "sub", "indel"]))


def run(c):
    import numpy as np

    if c["op"] == "om":
        return c16.run(c)
    x = c["x"]
    kw = {}
    if x["type"] is not None:
        kw["dist_type"] = x["type"]
    k = max(max(s) for s in c["in"]["seqs"])
    if x.get("given") == "sub":
        kw["subs_mat"] = 3.0 * (1 - np.eye(k))
    if x.get("given") == "indel":
        kw["indel"] = 7.5
    return seqs.observed(c, seqs.build(c, **kw))
