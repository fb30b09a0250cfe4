"""C12: Kendall's tau."""
import ranks
from core import integer, num

SPEC = "TraceTau"
ASSUMES = ["values are comparable (no NaN)", "the square root of two is rounded to eight digits in the code; p-values are accepted within 1e-4"]


def case(rng, x, y, **kw):
    da, db = ranks.dressings(rng, x, y)
    return {"op": "tau", "in": {"a": x, "b": y},
            "x": {"a": da, "b": db, "list": rng.random() < 0.2, **kw}}


def cases(ctx):
    cs = ctx.model("TauMachine", thorough_cfg="TauMachineT") + ctx.model("TauMachine", "TauMachine4", thorough_cfg="TauMachineT5")
    rng = ctx.sub("mc")
    if ctx.quick:
        cs = rng.sample(cs, 500)
    for c in cs:
        yield case(rng, ranks.dense(c["a"]), ranks.dense(c["b"]))
    rng = ctx.sub("random")
    for _ in range(ctx.n(400, 4000)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20])
        x, y = ranks.pair(rng, n)
        yield case(rng, x, y)
        if rng.random() < 0.25:  # the same observations in another order
            p = list(range(n))
            rng.shuffle(p)
            yield case(rng, [x[i] for i in p], [y[i] for i in p])
    for n in (40, 70, 150, 300, 700):
        for _ in range(3 if n < 100 else ctx.n(1, 3)):
            x, y = ranks.pair(rng, n)
            yield case(rng, x, y)


def run(c):
    from giddy.rank import Tau

    x, y = ranks.present(c["in"]["a"], c["x"]["a"]), ranks.present(c["in"]["b"], c["x"]["b"])
    if c["x"]["list"] and "uint64" not in (c["x"]["a"]["kind"], c["x"]["b"]["kind"]):  # lists of large integers become floats
        x, y = x.tolist(), y.tolist()
    return tau_of(Tau(x, y))


def tau_of(t):
    return {"tau": num(t.tau), "tau_p": num(t.tau_p), "concordant": integer(t.concordant), "discordant": integer(t.discordant),
            "extraX": integer(t.extraX), "extraY": integer(t.extraY)}
