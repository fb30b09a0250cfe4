"""C10: contiguity after removal, connected components of graphs."""
import operator

import gen
import panels
from core import num, quiet, val

SPEC = "TraceConnectivity"
ASSUMES = ["neighbour relations for the contiguity check are symmetric"]


def cases(ctx):
    rng = ctx.sub("mc")
    cs = ctx.model("ConnectivityMachine", thorough_cfg="ConnectivityMachineT")
    for c in rng.sample(cs, min(len(cs), ctx.n(500, 6000))):
        yield {"op": "Graph", "in": {"adds": c["adds"], "cmp": "gt", "threshold": "1/2"}, "x": {"names": rng.choice(["int", "str", "tuple"])}}
    cs = ctx.model("ConnectivityMachine", "ConnectivityMachineC" if ctx.quick else "ConnectivityMachineCT")
    for c in rng.sample(cs, min(len(cs), ctx.n(800, 8000))):
        ids = list(c["ids"])
        rng.shuffle(ids)
        yield {"op": "check_contiguity", "in": {"nb": c["nb"], "ids": ids, "leaver": c["leaver"]}, "x": {"names": rng.choice(["int", "str"])}}
    rng = ctx.sub("random")
    for i in range(ctx.n(250, 3000)):
        n = rng.randint(2, 20) if i % 25 else rng.randint(50, 150)
        nb = gen.graph(rng, n, rng.choice(gen.GRAPHS))
        if rng.random() < 0.5:
            start = rng.randrange(n)  # a connected set of units
            ids = [start]
            size = rng.randint(1, n)
            while len(ids) < size:
                cand = [j for i in ids for j in nb[i] if j not in ids]
                if not cand:
                    break
                ids.append(rng.choice(cand))
        else:
            ids = rng.sample(range(n), rng.randint(1, n))
        rng.shuffle(ids)
        yield {"op": "check_contiguity", "in": {"nb": gen.nbl(nb), "ids": [i + 1 for i in ids], "leaver": rng.choice(ids) + 1},
               "x": {"names": rng.choice(["int", "str"])}}
    for n in ctx.n([40, 80, 140, 200, 300], [40, 80, 140, 200, 270, 300, 400]):  # all the units of a large map, or all but a few
        for kind in ["path", "star", "lattice", "random"]:
            nb = gen.graph(rng, n, kind)
            ids = rng.sample(range(1, n + 1), n - rng.choice([0, 0, 0, 1, 2]))
            nbs, names = gen.nbl(nb), rng.choice(["int", "str"])
            yield {"op": "check_contiguity", "in": {"nb": nbs, "ids": ids, "leaver": min(ids, key=lambda v: (len(nbs[v - 1]), rng.random()))}, "x": {"names": names}}
            yield {"op": "is_component", "in": {"nb": nbs, "ids": ids}, "x": {"names": names}}
    for i in range(ctx.n(250, 3000)):
        n = rng.randint(1, 14) if i % 25 else rng.randint(40, 120)
        ws = rng.choice([[0.0, 1.0], [0.9, 1.0, 0.2], [0.1, 0.5, 0.9, 0.95, 2.0], [-1.0, 0.0, 3.0]])
        adds = [[rng.randint(1, n), rng.randint(1, n), num(rng.choice(ws))] for _ in range(rng.randint(1, 2 * n))]
        yield {"op": "Graph", "in": {"adds": adds, "cmp": rng.choice(["lt", "gt", "le", "ge"]), "threshold": num(rng.choice(ws + [0.9]))},
               "x": {"names": rng.choice(["int", "str", "tuple"])}}
    rng = ctx.sub("sessions")  # questions asked while links are added
    for i in range(ctx.n(150, 2000)):
        n = rng.randint(1, 10)
        ws = rng.choice([[0.0, 1.0], [0.9, 1.0, 0.2], [0.1, 0.5, 0.9, 0.95, 2.0]])

        def ask():
            return {"cmp": rng.choice(["lt", "gt", "le", "ge"]), "threshold": num(rng.choice(ws + [0.9]))}

        steps = []
        for _ in range(rng.randint(2, 14)):
            if steps and rng.random() < 0.3:
                steps.append({"op": "ask", **ask(), "within": ask()})
            else:
                steps.append({"op": "add", "link": [rng.randint(1, n), rng.randint(1, n), num(rng.choice(ws))]})
        steps.append({"op": "ask", **ask(), "within": ask()})
        yield {"op": "graphs", "in": {"steps": steps, "undirected": rng.random() < 0.9}, "x": {"names": rng.choice(["int", "str", "tuple"])}}
    for i in range(ctx.n(150, 1500)):
        n = rng.randint(2, 12)
        nb = gen.graph(rng, n, rng.choice(gen.GRAPHS))
        ids = rng.sample(range(1, n + 1), rng.randint(1, n))
        yield {"op": "is_component", "in": {"nb": gen.nbl(nb), "ids": ids}, "x": {"names": rng.choice(["int", "str"])}}
    for n in ctx.n([3, 999, 1500, 4000], [3, 50, 999, 1001, 1500, 4000, 20000, 50000]):
        for breaks in ([], sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 6))))):
            yield {"op": "path", "in": {"n": n, "breaks": breaks}, "x": {"order": rng.choice(["up", "down", "any"]), "seed": rng.randrange(2**31)}}


def run(c):
    import random

    from giddy import components as g

    x, i = c["x"], c["in"]
    if c["op"] == "path":
        G = g.Graph()
        links = list(range(1, i["n"]))
        if x["order"] == "down":
            links.reverse()
        elif x["order"] == "any":
            random.Random(x["seed"]).shuffle(links)
        weak = set(i["breaks"])
        for a in links:
            G.add_edge(a, a + 1, 0.0 if a in weak else 1.0)
        res = []
        for s in G.connected_components(op=operator.gt):
            lo, hi = min(s.nodes), max(s.nodes)
            res.append([lo, hi] if len(s.nodes) == hi - lo + 1 else [0, len(s.nodes)])
        return {"runs": res}
    name = {"int": lambda v: v - 1, "str": lambda v: "u%d" % v, "tuple": lambda v: (v % 3, v)}[x["names"]]
    if c["op"] == "check_contiguity":
        n = len(i["nb"])
        w = gen.make_w(gen.unnbl(i["nb"]), ids=[name(v) for v in range(1, n + 1)])
        back = {name(v): v for v in range(1, n + 1)}
        ids = [name(v) for v in i["ids"]]
        ans = g.check_contiguity(w, ids, name(i["leaver"]))
        return {"answer": bool(ans), "ids": [back[v] for v in ids]}
    if c["op"] == "is_component":
        w = gen.make_w(gen.unnbl(i["nb"]), ids=[name(v) for v in range(1, len(i["nb"]) + 1)])
        return {"answer": bool(g.is_component(w, [name(v) for v in i["ids"]]))}
    back = {}
    if c["op"] == "graphs":
        G = g.Graph() if i["undirected"] and x["names"] == "int" else g.Graph(undirected=i["undirected"])

        def ask(H, q):
            got = H.connected_components(threshold=val(q["threshold"]), op=getattr(operator, q["cmp"]))
            return None if got is None else list(got)

        def show(H):
            return {"nodes": sorted(back[v] for v in H.nodes), "edges": [[back[a], back[b], num(w)] for a in H.edges for b, w in H.edges[a].items()]}

        answers = []
        for s in i["steps"]:
            if s["op"] == "add":
                a, b, w = s["link"]
                back[name(a)], back[name(b)] = a, b
                G.add_edge(name(a), name(b), val(w))
                continue
            got = quiet(ask, G, s)
            answers.append({"none": got is None, "graph": show(G), "components": [show(H) for H in got or []],
                            "within": [[show(K) for K in quiet(ask, H, s["within"])] for H in got or []]})
        return {"answers": answers}
    G = g.Graph(undirected=True)
    for a, b, w in i["adds"]:
        back[name(a)], back[name(b)] = a, b
        G.add_edge(name(a), name(b), val(w))
    kw = {"op": getattr(operator, i["cmp"]), "threshold": val(i["threshold"])}
    if kw["threshold"] == 0.9:
        del kw["threshold"]
    if i["cmp"] == "lt":
        del kw["op"]
    return {"components": [{"nodes": sorted(back[v] for v in s.nodes),
                            "edges": [[back[a], back[b], num(w)] for a in s.edges for b, w in s.edges[a].items()]}
                           for s in G.connected_components(**kw)]}
