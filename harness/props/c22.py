"""C22: analyses leave their inputs and global state alone."""
import json

import ops
import world
from props.c23 import simulated

SPEC = "TraceEffects"
ASSUMES = ["observed inputs: contents, types and shapes of arrays and lists, neighbours, weights, order and transformation of weights objects, nodes and edges of graphs",
           "observed settings: matplotlib's and numpy's settings, warning filters, environment, paths, Python's generator, open figures, names and constants of the modules used"]


def case(rng, steps, d):
    return {"op": "effects", "in": {"steps": steps}, "x": {"d": d}}


def worlds(rng, n):
    res = []
    for i in range(n):
        d = world.make(rng, zeros=i == 1)
        if i % 4:
            d["w"]["ids"] = None
        res.append(d)
    return res


def cases(ctx):
    ctx.model("EffectsMachine", thorough_cfg="EffectsMachineT")
    hs = ctx.model("EffectsMachine", "EffectsMachineP")
    rng = ctx.sub("each")
    names = sorted({a["what"] for h in hs for a in h if a["op"] == "run"})
    ds = worlds(rng, ctx.n(3, 24))

    def seed(s):
        return {"op": "seed", "what": s}

    def run(w):
        return {"op": "run", "what": w}

    freeze = {"op": "freeze", "what": ""}
    for d in ds:  # every operation: under the same seed, and under another
        for w in names:
            yield case(rng, [seed("1"), run(w), run(w), seed("2"), run(w), freeze, seed("1"), run(w), run(w)], d)
    for d in ds[: ctx.n(1, 8)]:
        yield case(rng, [seed("1"), run("composite"), seed("1"), run("composite")], d)
    rng = ctx.sub("pairs")
    for h in rng.sample(hs, ctx.n(120, 7000)):
        yield case(rng, h, rng.choice(ds))
    rng = ctx.sub("long")
    for h in simulated(ctx, "EffectsMachineL", ctx.n(25, 600), 24, "EffectsMachine"):
        yield case(rng, h, rng.choice(ds))


_state = {}


def warm_up(c):
    """Every operation once, for the imports and caches of the libraries; what
    the first time changes of the settings is observed with the first run."""
    import importlib
    import warnings

    for m in ("esda", "libpysal", "mapclassify", "quantecon", "seaborn", "splot.esda", "geopandas", "ipywidgets", "scipy.stats.mstats"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    _state["first"] = {}
    _state["table"] = ops.table()
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    warm = ops.Inputs(c["x"]["d"])
    warm.frame()
    warm.held()
    ops.plt().close("all")
    for w in _state["table"]:
        a = ops.settings(ops.modules())
        ops.perform(w, warm, _state["table"], write=False)
        b = ops.settings(ops.modules())
        both = set(a) & set(b)  # but for modules imported late
        _state["first"][w] = ops.changed_settings({k: a[k] for k in both}, {k: b[k] for k in both}, _state["table"][w][1])
        ops.plt().close("all")


def run(c):
    import numpy as np
    import warnings

    if "table" not in _state:
        warm_up(c)
    tab = _state["table"]
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    D = ops.Inputs(c["x"]["d"])
    if any(s["what"] == "composite" for s in c["in"]["steps"]):
        D.frame()
    D.held()
    np.random.seed(0)
    gens, vals, steps = [], {}, []
    before = D.fingerprint()
    ops.plt().close("all")
    mods = ops.modules()
    kept = ops.settings(mods)
    for s in c["in"]["steps"]:
        obs = {"gen": 0, "res": 0, "changed": [], "settings": []}
        if s["op"] == "seed":
            np.random.seed(int(s["what"]))
        elif s["op"] == "freeze":
            D.freeze()
        else:
            plots = tab[s["what"]][1]
            v = ops.perform(s["what"], D, tab)
            now = ops.settings(mods)
            after = D.fingerprint()
            obs["changed"], obs["settings"] = ops.differing(before, after), ops.changed_settings(kept, now, plots)
            obs["settings"] = sorted(set(obs["settings"]) | set(_state["first"].get(s["what"], [])))
            before, kept = after, now
            if plots:
                ops.plt().close("all")
                kept["figures"] = []
            reps = vals.setdefault(s["what"], [])
            for i, r in enumerate(reps):
                if world.same(r, v):
                    obs["res"] = i + 1
            if not obs["res"]:
                reps.append(v)
                obs["res"] = len(reps)
        st = np.random.get_state()
        st = [st[0], st[1].tobytes(), st[2], st[3], st[4]]
        if st not in gens:
            gens.append(st)
        obs["gen"] = gens.index(st) + 1
        steps.append(obs)
    return {"steps": steps}
