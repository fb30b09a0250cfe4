"""C23: results do not depend on the history of calls."""
import json

import world
from core import arr, observe, quiet

SPEC = "TraceSession"
ASSUMES = ["the random state is seeded before an object that draws permutations is built, and before a plot that does",
           "the value on a freshly built object is computed from fresh copies of the data and weights"]


def case(rng, steps, d=None):
    return {"op": "session", "in": {"steps": steps}, "x": {"d": d or world.make(rng), "variants": [rng.randrange(2) for _ in range(3)]}}


def simulated(ctx, cfg, num, depth, module="SessionMachine"):
    """Long histories: random walks through the model (siblings are dropped)."""
    from core import strings, tlc

    r = tlc(module, cfg, simulate="num=%d" % num, extra=["-depth", str(depth + 1), "-seed", str(ctx.seed)], workers=1)
    ctx.mc.append(r)
    if r["code"] != 0:
        from core import MachineryError
        raise MachineryError(r["out"][-2000:])
    seen, res = set(), []
    for s in strings(r["lines"], "CASE"):
        h = json.loads(s)
        key = json.dumps(h[:-1])
        if key not in seen:
            seen.add(key)
            res.append(h)
    return res


def cases(ctx):
    hs = ctx.model("SessionMachine")
    rng = ctx.sub("mc")
    ds = [world.make(rng) for _ in range(ctx.n(6, 20))]
    for h in (rng.sample(hs, min(len(hs), ctx.n(1500, 10**9)))):
        yield case(rng, h, rng.choice(ds))
    if not ctx.quick:
        hs = ctx.model("SessionMachine", "SessionMachineT")
        for h in rng.sample(hs, min(len(hs), 12000)):
            yield case(rng, h, rng.choice(ds))
    rng = ctx.sub("long")
    ds = [world.make(rng) for _ in range(ctx.n(12, 60))]
    for h in simulated(ctx, "SessionMachineL", ctx.n(60, 2000), 14):
        yield case(rng, h, rng.choice(ds))
    # every attribute and method of an object, in random orders, twice
    rng = ctx.sub("all")
    attrs = {}
    for h in hs:
        for s in h:
            if s["op"] in ("read", "call"):
                attrs.setdefault(h[0]["kind"], set()).add((s["op"], s.get("attr") or s.get("meth")))
    for kind in sorted(attrs):
        for _ in range(ctx.n(3, 15)):
            todo = (sorted(attrs[kind]) + [("read", a) for a in MORE[kind]]) * 2
            rng.shuffle(todo)
            steps = [{"op": "new", "kind": kind}] + [{"op": o, "obj": 1, ("attr" if o == "read" else "meth"): a} for o, a in todo]
            if kind == "rose":
                for _ in range(3):
                    steps.insert(rng.randrange(1, len(steps)), {"op": "permute", "obj": 1, "R": rng.choice([1, 4, 9, 99]),
                                                                "alt": rng.choice(["two-sided", "positive", "negative", "nonsense"])})
            yield case(rng, steps, rng.choice(ds))


# MoreAttrs of the specification
CHAIN = ["num_tclasses", "num_astates", "num_cclasses", "rclasses_indices", "astates_indices"]
SPATIAL = ["ht", "classes", "lclasses", "fixed", "discrete", "variable_name"]
LISA = ["significance_level", "permutations", "num_cclasses", "rclasses_indices", "num_astates", "classes"]
MORE = {"markov": CHAIN, "fullrank": CHAIN, "georank": CHAIN, "spatial": SPATIAL, "spatialp": SPATIAL,
        "spatiald": ["ht", "classes", "discrete", "variable_name"], "lisa": LISA, "lisap": LISA, "rose": ["sw"],
        "homogeneity": ["A", "A_im", "B", "b_i", "t_total", "title", "regime_names", "class_names"]}
_memo = {}


def fresh(d, kind, what, fn):
    """The value on an object of its own, of fresh copies of the data."""
    key = (json.dumps(d), kind, what)
    if key not in _memo:
        data = world.Data(d)
        obj = None if kind is None else data.new(*kind)
        _memo[key] = world.attempt(fn, data, obj)
    return _memo[key]


BUILT = {"markov": ("transitions", "p"), "fullrank": ("transitions",), "georank": ("transitions",), "spatial": ("T", "p"),
         "spatialp": ("T", "x2_realizations", "x2_rpvalue"), "spatiald": ("T", "class_ids"), "lisa": ("q", "chi_2"),
         "lisap": ("q", "significant_moves"), "rose": ("counts", "r"), "homogeneity": ("Q", "LR")}


def run(c):
    import numpy as np

    d = c["x"]["d"]
    data = world.Data(d)
    objs, kinds, steps = [], [], []
    table = {}

    def tok(group, v):
        reps = table.setdefault(group, [])
        for i, r in enumerate(reps):
            if world.same(r, v):
                return i + 1
        reps.append(v)
        return len(reps)

    for s in c["in"]["steps"]:
        obs = {"tok": 0, "fresh": 0, "rows": -1, "text": ""}
        if s["op"] == "new":
            kind = (s["kind"], c["x"]["variants"][len(objs)])
            o = data.new(*kind)
            objs.append(o)
            kinds.append(kind)
            g = ("new", kind)
            # what construction alone determines; reading more would compute it
            obs["tok"] = tok(g, world.attempt(lambda: [vars(o)[a] if a in vars(o) else getattr(o, a) for a in BUILT[kind[0]]]))
            obs["fresh"] = tok(g, fresh(d, kind, "new", lambda dd, oo: [vars(oo)[a] if a in vars(oo) else getattr(oo, a) for a in BUILT[kind[0]]]))
        elif s["op"] == "read":
            o, kind, a = objs[s["obj"] - 1], kinds[s["obj"] - 1], s["attr"]
            v = world.attempt(getattr, o, a)
            g = ("read", kind, a)
            obs["tok"] = tok(g, v)
            obs["fresh"] = tok(g, fresh(d, kind, a, lambda dd, oo: getattr(oo, a)))
            if kind[0] == "rose" and a == "counts_perm" and hasattr(v, "shape") and v.ndim == 2:
                obs["rows"] = int(v.shape[0])
            if isinstance(v, str):
                obs["text"] = v
        elif s["op"] == "call":
            o, kind, m = objs[s["obj"] - 1], kinds[s["obj"] - 1], s["meth"]
            g = ("call", kind, m)
            obs["tok"] = tok(g, world.attempt(world.call, o, m, data))
            obs["fresh"] = tok(g, fresh(d, kind, "()" + m, lambda dd, oo: world.call(oo, m, dd)))
        elif s["op"] == "permute":
            quiet(objs[s["obj"] - 1].permute, s["R"], s["alt"])
        elif s["op"] == "other":
            g = ("other", s["what"])
            obs["tok"] = tok(g, world.attempt(data.other, s["what"]))
            obs["fresh"] = tok(g, fresh(d, None, s["what"], lambda dd, oo: dd.other(s["what"])))
        steps.append(obs)
    finals = []
    for o, kind in zip(objs, kinds):
        if kind[0] == "rose" and hasattr(o, "counts_perm"):
            p = arr(o.p) if hasattr(o, "p") else {"exc": "absent"}
            finals.append({"k": int(o.k), "n": len(d["y"]), "perm": arr(o.counts_perm), "larger": arr(o.larger_perm), "smaller": arr(o.smaller_perm),
                           "expected": arr(o.expected_perm), "p": p, "before": p, "alternative": str(o.alternative),
                           "counts": arr(fresh(d, kind, "counts", lambda dd, oo: oo.counts))})
        else:
            finals.append({"k": 0})
    return {"steps": steps, "finals": finals}
