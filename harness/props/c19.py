"""C19: permutation inference on roses."""
import panels
import roses
from core import arr, quiet

SPEC = "TraceRose"
ASSUMES = ["the directional alternatives are defined for four and eight sectors",
           "attainable counts and frequencies are judged on up to five units with exact arithmetic",
           "numpy's generator is uniform; frequencies, and agreements of consecutive draws, are accepted within seven standard deviations"]
NAMES = {"two": ["two.sided", "two-sided", "TWO.SIDED", "Two-Sided"], "positive": ["positive", "POSITIVE", "Positive"],
         "negative": ["negative", "Negative"], "unknown": ["x", "both", "neg", "two sided", "greater"]}


def calls(rng, k, n, most):
    res = []
    for _ in range(n):
        alt = rng.choice(["two", "two", "positive", "negative", "unknown"] if k in (4, 8) else ["two", "two", "unknown"])
        res.append({"R": rng.choice([1, 2, 3, 9, 19, 49, 99, 100]) if most is None else most, "alt": alt})
    return res


def cases(ctx):
    cs = ctx.model("RoseInference", thorough_cfg="RoseInferenceT")
    ctx.model("InferenceMachine", thorough_cfg="InferenceMachineT")
    rng = ctx.sub("mc")
    w = {"nb": [[1], [0, 2], [1]], "wt": None, "transform": None, "ids": None}
    for c in rng.sample(cs, min(len(cs), ctx.n(30, 300))):
        r = roses.case(rng, "permute", [[float(v) for v in p] for p in c["y"]], True, w, 4)
        yield finish(rng, r, calls(rng, 4, 2, 150), True)
    rng = ctx.sub("enum")
    for _ in range(ctx.n(40, 300)):
        while True:
            c = roses.random_case(rng, "permute", rng.choice([3, 4, 4, 5]), rng.choice([4, 8]), rng.choice(["B", "Rpow2", "directed"]), rng.choice(["ints", "few", "negative"]))
            if c["in"]["exact"]:
                break
        yield finish(rng, c, calls(rng, c["in"]["k"], rng.choice([1, 2, 3]), ctx.n(200, 400)), True)
    rng = ctx.sub("p")
    for _ in range(ctx.n(150, 2000)):
        c = roses.random_case(rng, "permute")
        yield finish(rng, c, calls(rng, c["in"]["k"], rng.randint(1, 4), None), False)


    for n in (150, 280):
        for k in (4, 2, 1):
            c = roses.random_case(rng, "permute", n, k)
            yield finish(rng, c, calls(rng, k, 2, 5), False)


def finish(rng, c, cl, enum):
    c["in"].update(calls=cl, enum=enum)
    for x in cl:
        x["name"] = rng.choice(NAMES[x["alt"]]) or "two.sided"
        x["default"] = x["name"] == "two.sided" and rng.random() < 0.5
        if x["R"] == 99 and x["alt"] == "two":
            x.update(name="two.sided", default=True)
    c["x"].update(seed=rng.randrange(2**31))
    return c


def pvalues(r):
    return arr(r.p) if hasattr(r, "p") else {"exc": "absent"}


def run(c):
    import numpy as np

    r = roses.build(c)
    out = {"observed": roses.observed(r), "calls": []}
    np.random.seed(c["x"]["seed"])
    for call in c["in"]["calls"]:
        before = pvalues(r)
        R = () if call["R"] == 99 and call["default"] else (call["R"],)
        quiet(r.permute, *R, **({} if call["default"] else {"alternative": call["name"]}))
        out["calls"].append({"perm": arr(r.counts_perm), "larger": arr(r.larger_perm), "smaller": arr(r.smaller_perm),
                             "expected": arr(r.expected_perm), "p": pvalues(r), "before": before, "alternative": str(r.alternative)})
    out["after"] = roses.observed(r)
    return out
