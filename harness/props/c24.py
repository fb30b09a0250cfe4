"""C24: plots show the computed results."""
import contextlib
import io
from fractions import Fraction

import lisa
import panels
import roses
from core import arr, num, quiet, unsaid

SPEC = "TracePlots"
ASSUMES = ["local Moran statistics and their pseudo p-values are those esda computes from the same random state for the first and the last period",
           "figures are read back through matplotlib's artists; seaborn and geopandas draw what they are handed"]
LABELS = ["ns", "HH", "LH", "LL", "HL"]


def panel_case(rng, op, kinds=("smooth", "any"), n=None):
    n = n or rng.randint(4, 20)
    w = panels.weights(rng, n, rng.choice(["B", "R", "R", "real", "realR", "directed", "directedR"]))
    t = rng.choice([2, 2, 2, 3, 4])
    dy = False
    while True:
        if rng.choice(kinds) == "smooth":
            y = lisa.smooth(rng, n, t, w)
        else:
            y, dy = panels.panel(rng, n, t)
        if all(len({r[s] for r in y}) > 1 for s in (0, t - 1)):
            break
    c = roses.case(rng, op, y, dy, w, rng.choice([4, 5, 8]))
    c["x"].update(seed=rng.randrange(2**31), ax=rng.random() < 0.5, style=rng.random() < 0.5)
    c["in"].update(attribute=[])
    return c


def cases(ctx):
    ctx.model("PlotsMachine", thorough_cfg="PlotsMachineT")
    rng = ctx.sub("heat")
    for i in range(ctx.n(70, 900)):
        c = panel_case(rng, "heatmap", ("smooth", "smooth", "any"))
        kw = rng.choice(["", "", "", "nomask", "noannot", "labels"])
        ls = rng.sample(["a", "b", "c", "d", "e"], 5) if kw == "labels" else LABELS
        c["x"].update(level=rng.choice([None, 0.05, 0.1, 0.2, 0.3, 0.5, 1.0, "pick", "pick", "pick"]), kw=kw)
        c["in"].update(labels=ls, hide=kw != "nomask", annot=kw != "noannot")
        yield c
    rng = ctx.sub("rose")
    for i in range(ctx.n(50, 600)):
        c = panel_case(rng, "roseplot", ("any",))
        if rng.random() < 0.6:
            c["in"]["attribute"] = [num(float(rng.randint(-9, 9))) for _ in c["in"]["y"]]
        c["x"].update(method=rng.random() < 0.5, kw=rng.choice([{}, {}, {"alpha": 0.3}, {"cmap": "viridis"}, {"s": 5}]))
        if not c["in"]["attribute"] and rng.random() < 0.3:
            c["x"]["kw"] = {"c": "r"}
        yield c
    for i in range(ctx.n(50, 600)):
        c = panel_case(rng, "vectors", ("any",))
        c["in"]["arrows"] = rng.random() < 0.6
        c["x"].update(method=rng.random() < 0.4, kw=rng.choice([{}, {"color": "r"}, {"c": "g"}, {"lw": 3}]))
        yield c
    for op, n in (("roseplot", 140), ("vectors", 140), ("heatmap", 70), ("origin", 140)):
        c = panel_case(rng, op, ("smooth",), n)
        if op == "heatmap":
            c["x"].update(level=0.3, kw="")
            c["in"].update(labels=LABELS, hide=True, annot=True)
        elif op == "vectors":
            c["in"]["arrows"] = True
        if op in ("roseplot", "vectors"):
            c["x"].update(method=False, kw={})
        yield c
    for i in range(ctx.n(30, 300)):
        yield panel_case(rng, "origin", ("any",))
    for i in range(ctx.n(8, 120)):
        c = panel_case(rng, "composite", ("smooth", "smooth", "any"))
        c["x"].update(level=rng.choice([None, 0.1, 0.3, "pick"]))
        yield c
    rng = ctx.sub("explore")  # the composite of two columns picked from a table
    for i in range(ctx.n(6, 60)):
        c = panel_case(rng, "explore", ("smooth", "any"))
        names, pattern = rng.choice([(["a_r", "b_r", "c", "r_a"], "_r"), (["y1", "y2", "z"], ""), (["1990", "1890", "2000", "0x"], "90"),
                                     (["aa", "a", "ba", "ab"], "a"), (["one", "only"], "ly")])
        t = len(c["in"]["y"][0])
        names = (names * t)[:t] if t <= len(names) else names
        names = names[:t]
        cols = [v for v in names if v.endswith(pattern)]
        c["in"].update(columns=cols, start=rng.choice(cols), end=rng.choice(cols))
        data = {v: [r[names.index(v)] for r in c["in"]["y"]] for v in names}
        c["x"].update(level=rng.choice([None, 0.1, 0.3, "pick"]), names=names, pattern=pattern, data=data, rose=c["in"]["y"], size=rng.choice([None, (7, 5)]))
        c["in"]["y"] = [list(r) for r in zip(data[c["in"]["start"]], data[c["in"]["end"]])]
        if all(len(set(data[v])) > 1 for v in cols):
            yield c
    rng = ctx.sub("failing")
    for what, must in [("length", ""), ("c", "ValueError"), ("color", "ValueError"), ("axes", ""), ("keyword", ""), ("heatkeyword", ""),
                       ("heatmask", ""), ("vectorkeyword", ""), ("map", "")] * ctx.n(2, 10):
        c = panel_case(rng, "failing", ("any",), rng.randint(4, 8))
        c["x"]["what"], c["in"]["must"] = what, must
        yield c


def heat_cells(ax):
    import numpy as np

    mesh = [c for c in ax.collections if type(c).__name__ == "QuadMesh"][0]
    a = np.ma.asarray(mesh.get_array()).reshape(5, 5)
    xt = {int(t): l.get_text() for t, l in zip(ax.get_xticks(), ax.get_xticklabels())}
    yt = {int(t): l.get_text() for t, l in zip(ax.get_yticks(), ax.get_yticklabels())}
    texts = {}
    for t in ax.texts:
        x, y = t.get_position()
        texts[(int(y), int(x))] = t.get_text()
    swap = "Start" in ax.get_xlabel()
    cells = []
    for r in range(5):
        for c in range(5):
            hidden = bool(np.ma.getmaskarray(a)[r, c])
            row, col = yt.get(r, "?"), xt.get(c, "?")
            cells.append({"start": col if swap else row, "end": row if swap else col, "hidden": hidden,
                          "value": "0" if hidden else num(a[r, c]), "text": texts.get((r, c), "")})
    ok = ("Start" in ax.get_xlabel()) != ("Start" in ax.get_ylabel()) and ("End" in ax.get_xlabel()) != ("End" in ax.get_ylabel())
    return cells if ok else []


def morans(c):
    import numpy as np
    from esda.moran import Moran_Local

    y = np.array(panels.dec(c["in"]["y"]), dtype=c["x"]["dtype"])
    res = []
    for s in (0, -1):
        np.random.seed(c["x"]["seed"])
        res.append(quiet(Moran_Local, y[:, s], panels.make(c["x"]["w"])))
    return res


def stats(ms):
    return [{"q": [int(v) for v in m.q], "p": [num(float(v)) for v in m.p_sim]} for m in ms]


def pick(c, ms):
    level = c["x"].get("level")
    if level is None:
        return 0.05, {}
    if level == "pick":
        ps = sorted({float(v) for m in ms for v in m.p_sim})
        level = ps[c["x"]["seed"] % len(ps)]
    return level, {"p": level}


def scatter_of(ax):
    import numpy as np

    pc = [p for p in ax.collections if type(p).__name__ == "PathCollection"][0]
    off = np.ma.getdata(pc.get_offsets())
    col = pc.get_array()
    return {"projection": ax.name, "theta": arr(off[:, 0]), "r": arr(off[:, 1]), "colors": arr(np.zeros(0) if col is None else np.ma.getdata(col).astype(float))}


def line_ends(ax):
    return [[num(float(v)) for v in (l.get_xdata()[0], l.get_ydata()[0], l.get_xdata()[-1], l.get_ydata()[-1])] if len(l.get_xdata()) == 2 else []
            for l in ax.lines]


def run(c):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import numpy as np
    from giddy import plotting

    x = c["x"]
    plt.close("all")
    with mpl.rc_context():
        if x["style"]:
            mpl.rcParams.update({"grid.color": "r", "axes.facecolor": "0.3", "axes.edgecolor": "b", "image.cmap": "viridis", "axes.grid": True})
        try:
            return drawn(c, x, mpl, plt, np, plotting)
        finally:
            plt.close("all")


def explored(c, x, plt, np, plotting, kw):
    """The figure for two columns picked with the widgets, and the columns on offer."""
    from ipywidgets import interactive
    from ipywidgets.widgets import widget

    given = dict(c, **{"in": dict(c["in"], y=x["rose"])})
    gdf = frame(len(x["rose"]))[["geometry"]]
    for v in x["names"]:
        gdf[v] = np.array([float(Fraction(q)) for q in x["data"][v]], dtype=x["dtype"])
    gdf = gdf[x["names"] + ["geometry"]]
    known = set(widget._instances)
    r = roses.build(given)
    with contextlib.redirect_stdout(io.StringIO()):
        plotting.dynamic_lisa_composite_explore(r, gdf, pattern=x["pattern"], **kw)
        ui = [w for k, w in widget._instances.items() if k not in known and isinstance(w, interactive)][0]
        box = {w.description: w for w in ui.children if hasattr(w, "options")}
        offered = [sorted(dict(box[v].options)) for v in ("start_time", "end_time")]
        box["start_time"].value = c["in"]["start"]
        other = [v for v in c["in"]["columns"] if v != c["in"]["end"]]
        if box["end_time"].value != c["in"]["end"] or other:
            if other:
                box["end_time"].value = other[0]
            plt.close("all")
            np.random.seed(x["seed"])
            box["end_time"].value = c["in"]["end"]
        else:
            plt.close("all")
            np.random.seed(x["seed"])
            ui.update()
    return plt.gcf(), offered


def drawn(c, x, mpl, plt, np, plotting):
    rose = roses.build(c)
    op = c["op"]
    given = None
    if op in ("heatmap", "roseplot", "vectors") and x["ax"]:
        given = plt.figure().add_subplot(122, projection="polar" if op == "roseplot" else None)
        other = plt.figure().add_subplot(111)  # the current axes are others
    ms = morans(c) if op in ("heatmap", "composite", "explore") else None
    figs = plt.get_fignums()
    before = dict(mpl.rcParams)
    np.random.seed(x["seed"])
    kw = dict(x.get("kw") or {}) if op in ("roseplot", "vectors") else {}
    if given is not None:
        kw["ax"] = given
    out = {}
    err = "none"

    def done(fig, ax):
        out["frame"] = {"given": given is not None,
                        "same": given is None or (ax is given and plt.get_fignums() == figs and not other.collections and not other.lines),
                        "figure": fig is ax.figure, "style": sorted(k for k in before if mpl.rcParams[k] != before[k])}
        return ax

    if op == "heatmap":
        level, lk = pick(c, ms)
        kw.update(lk)
        if x["kw"] == "nomask":
            kw["mask"] = None
        if x["kw"] == "noannot":
            kw["annot"] = False
        if x["kw"] == "labels":
            kw["xticklabels"] = kw["yticklabels"] = c["in"]["labels"]
        ax = done(*plotting.dynamic_lisa_heatmap(rose, **kw))
        s = stats(ms)
        out.update(cells=heat_cells(ax), start=s[0], end=s[1], level=num(level))
    elif op == "roseplot":
        if c["in"]["attribute"]:
            kw["attribute"] = np.array([float(v) for v in c["in"]["attribute"]])
        ax = done(*(rose.plot(**kw) if x["method"] else plotting.dynamic_lisa_rose(rose, **kw)))
        out.update(scatter_of(ax))
    elif op == "vectors":
        arrows = unsaid({"arrows": c["in"]["arrows"]}, arrows=True)
        if x["method"] and given is None:
            ax = done(*rose.plot_vectors(**arrows))
        else:
            ax = done(*plotting.dynamic_lisa_vectors(rose, **arrows, **kw))
        out.update(lines=line_ends(ax), arrows=[[num(float(v)) for v in (*t.xyann, *t.xy)] for t in ax.texts if hasattr(t, "xyann")])
    elif op == "origin":
        fig = plt.figure()
        rose.plot_origin()
        ax = done(fig, plt.gca())
        out.update(lines=line_ends(ax))
    elif op == "composite":
        level, lk = pick(c, ms)
        fig, axs = plotting.dynamic_lisa_composite(rose, frame(len(c["in"]["y"])), **lk)
        out["frame"] = {"style": sorted(k for k in before if mpl.rcParams[k] != before[k])}
        s = stats(ms)
        out.update(cells=heat_cells(axs[0]), start=s[0], end=s[1], level=num(level), map1=colours(axs[1]), map2=colours(axs[3]))
        out.update(scatter_of(axs[2]))
    elif op == "explore":
        level, lk = pick(c, ms)
        if x["size"]:
            lk["figsize"] = x["size"]
        fig, offered = explored(c, x, plt, np, plotting, lk)
        axs = fig.axes
        out["frame"] = {"style": sorted(k for k in before if mpl.rcParams[k] != before[k])}
        s = stats(ms)
        out.update(cells=heat_cells(axs[0]), start=s[0], end=s[1], level=num(level), map1=colours(axs[1]), map2=colours(axs[3]),
                   offered=[[v for v in o if v != "geometry"] for o in offered], size=[num(float(v)) for v in fig.get_size_inches()],
                   wanted=[num(float(v)) for v in (x["size"] or (13, 10))])
        out.update(scatter_of(axs[2]))
    elif op == "failing":
        a = np.arange(len(c["in"]["y"]), dtype=float)
        try:
            {"length": lambda: rose.plot(attribute=a[:-1]),
             "c": lambda: rose.plot(attribute=a, c="r"),
             "color": lambda: plotting.dynamic_lisa_rose(rose, attribute=a, color="r"),
             "axes": lambda: rose.plot(ax=plt.figure().add_subplot(111)),
             "keyword": lambda: rose.plot(nonsense=1),
             "heatkeyword": lambda: plotting.dynamic_lisa_heatmap(rose, nonsense=1),
             "heatmask": lambda: plotting.dynamic_lisa_heatmap(rose, mask=np.zeros((2, 2), bool)),
             "vectorkeyword": lambda: plotting.dynamic_lisa_vectors(rose, nonsense=1),
             "map": lambda: plotting.dynamic_lisa_composite(rose, frame(len(a) + 1)),
             }[x["what"]]()
        except Exception as e:
            err = type(e).__name__
        return {"error": err, "style": sorted(k for k in before if mpl.rcParams[k] != before[k])}
    return out


def frame(n):
    import geopandas as gpd
    from shapely.geometry import Polygon

    return gpd.GeoDataFrame({"v": list(range(n))}, geometry=[Polygon([(i, 0), (i + 1, 0), (i + 1, 1), (i, 1)]) for i in range(n)])


def colours(ax):
    """Colour of each polygon, in the order of the units (found by location)."""
    from matplotlib.colors import to_hex

    res = {}
    for c in ax.collections:
        c.update_scalarmappable()
        f = c.get_facecolor()
        for i, p in enumerate(c.get_paths()):
            res.setdefault(int(round(p.get_extents().x0)), []).append(to_hex(f[i if len(f) > 1 else 0]))
    return [",".join(res[u]) for u in sorted(res)]
