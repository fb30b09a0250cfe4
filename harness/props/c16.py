"""C16: optimal matching distances of sequences."""
import seqs
from core import num, val

SPEC = "TraceAlignment"
ASSUMES = ["substitution costs are non-negative with a zero diagonal; costs that depend on the direction may be taken in either"]
TYPES = [None, None, "hamming", "interval", "markov", "tran", "arbitrary", "nonsense"]


def costs(rng, k):
    """Substitution costs and indel cost."""
    style = rng.choice(["ints", "quarters", "floats", "wide", "unit", "zero", "gap"])
    draw = {"ints": lambda: rng.randint(0, 5), "quarters": lambda: rng.randint(0, 12) / 4, "floats": lambda: rng.random(),
            "wide": lambda: 10.0 ** rng.randint(-6, 6) * rng.random(), "unit": lambda: 1, "zero": lambda: rng.choice([0, 0, 1]),
            "gap": lambda: rng.choice([0.1, 100.0])}[style]
    m = [[0 if i == j else draw() for j in range(k)] for i in range(k)]
    if rng.random() < 0.8:
        m = [[m[min(i, j)][max(i, j)] for j in range(k)] for i in range(k)]
    top = max(max(r) for r in m)
    indel = rng.choice([0, 0.3, 0.5, 1, 2, top, top / 2, top / 3, 3 * top + 1, draw()])
    return m, indel, style in ("ints", "unit", "zero")


def case(rng, ss, k, m=None, indel=None, ints=False, form=None):
    if m is None:
        m, indel, ints = costs(rng, k)
    return {"op": "om", "in": {"seqs": ss, "sub": [[num(float(v)) for v in r] for r in m], "indel": num(indel)},
            "x": dict(seqs.dressing(rng, k, form), ints=ints and rng.random() < 0.5, intindel=indel == int(indel) and rng.random() < 0.5,
                      type=rng.choice(TYPES))}


def cases(ctx):
    cs = ctx.model("AlignmentMachine", thorough_cfg="AlignmentMachineT") + ctx.model("AlignmentMachine", "AlignmentMachine3", thorough_cfg="AlignmentMachineT3")
    ctx.model("DistanceTable", thorough_cfg="DistanceTableT")
    rng = ctx.sub("mc")
    cs = rng.sample(cs, ctx.n(400, 6000))
    for c in cs:
        used = sorted(set(c["a"]) | set(c["b"]))
        ss, k = seqs.dense([c["a"], c["b"]])
        yield case(rng, ss, k, [[c["sub"][i - 1][j - 1] for j in used] for i in used], c["indel"], True)
    rng = ctx.sub("random")
    for _ in range(ctx.n(300, 3000)):
        ss, k = seqs.random_set(rng, longest=ctx.n(6, 8))
        yield case(rng, ss, k)
        if rng.random() < 0.2:  # the same sequences in another order
            yield case(rng, rng.sample(ss, len(ss)), k)
    for _ in range(ctx.n(20, 150)):
        ss, k = seqs.many_classes(rng)
        yield case(rng, ss, k)
    for _ in range(ctx.n(12, 100)):
        ss, k = seqs.long_set(rng, ctx.n(40, 120))
        if rng.random() < 0.4:
            ss, k = seqs.dense([s[: rng.randint(11, len(s))] for s in ss])
        yield case(rng, ss, k)
    for short, long in ctx.n([(30, 130)], [(30, 130), (3, 260), (100, 170)]):  # lengths far apart
        base, k = seqs.dense([[rng.randint(1, 3) for _ in range(long)]])
        base = base[0]
        o = rng.randint(long - short - 10, long - short)
        ss = [base, base[o:o + short], [c for c in base if rng.random() < 0.8]]
        yield case(rng, ss, k)
        yield case(rng, ss[::-1], k)
    for n in (15, 24, 60) + ctx.n((), (130, 300)):
        ss, k = seqs.random_set(rng, 6, 4, n)
        yield case(rng, ss, k)


def run(c):
    import numpy as np

    x = c["x"]
    m = np.array([[val(v) for v in r] for r in c["in"]["sub"]])
    if x["ints"]:
        m = m.astype(int)
    indel = val(c["in"]["indel"])
    kw = {} if x["type"] is None else {"dist_type": x["type"]}
    return seqs.observed(c, seqs.build(c, subs_mat=m, indel=int(indel) if x["intindel"] else indel, **kw))
