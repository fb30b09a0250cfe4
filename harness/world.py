"""Shared data of a session and the objects users build from it."""
import contextlib
import io

import panels


def make(rng, n=None, t=None, zeros=False):
    """Everything a session's data is made from (plain, reproducible)."""
    n = n or rng.randint(4, 8)
    t = t or rng.randint(3, 4)
    w = panels.weights(rng, n, rng.choice(["B", "R", "real", "realR", "directed", "R"]))
    while True:
        y = [[round(rng.uniform(1, 20), 2) for _ in range(t)] for _ in range(n)]
        if rng.random() < 0.3:
            y = [[float(round(v)) for v in r] for r in y]
        zeros = zeros or rng.random() < 0.3
        if zeros:  # zeros with a sign, beside values of both
            c = rng.choice([0, 0, 8])
            y = [[-0.0 if rng.random() < 0.15 else round(v - c, 2) for v in r] for r in y]
        if all(len({r[s] for r in y}) > 2 for s in range(t)):
            break
    k = rng.choice([2, 2, 3])
    lab = [[rng.randrange(k) for _ in range(t)] for _ in range(n)]
    for c in range(k):
        lab[c % n][c % t] = c
    flat = sorted(v for r in y for v in r)
    return {"y": y, "w": w, "lab": lab, "labels": rng.choice(["int", "str"]), "regime": [rng.randrange(2) for _ in range(n - 2)] + [0, 1],
            "cuts": [flat[len(flat) // 3], flat[2 * len(flat) // 3]], "mats": [[[rng.randint(0, 5) for _ in range(3)] for _ in range(3)] for _ in range(2)],
            "seed": rng.randrange(2**31), "rk": rng.choice([4, 8]), "geoda": rng.random() < 0.4, "fill": rng.random() < 0.5,
            "view": rng.random() < 0.5, "dtype": "float64" if zeros else rng.choice(["float64", "float64", "int64"]), "named": rng.random() < 0.5}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Data:
    """The live arrays and weights; every object of a session uses the same."""

    def __init__(self, d):
        import numpy as np

        self.d = d
        self.y = np.array(d["y"], dtype=d["dtype"])
        self.w = panels.make(d["w"])
        names = [0, 1, 2] if d["labels"] == "int" else ["a", "b", "c"]
        self.lab = np.array([[names[c] for c in r] for r in d["lab"]])
        self.Y2 = self.y[:, [0, -1]] if not d["view"] else self.y[:, ::self.y.shape[1] - 1]
        self.regime = np.array(d["regime"])
        self.cuts = list(d["cuts"])
        self.mats = [np.array(m, dtype=float) for m in d["mats"]]
        self.names = ["R%d" % i for i in range(2)]
        self.cnames = ["x", "y", "z"]
        self.a = self.y[:, 0]
        self.b = self.y[:, -1]

    def new(self, kind, variant=0):
        """An object of the shared data; the second variant of a kind differs
        from the first in its parameters, or in the part of the data it uses."""
        import numpy as np
        from giddy import directional, markov

        d = self.d
        v = variant
        y = self.y[:, ::-1] if v else self.y
        lab = self.lab[:, :-1] if v else self.lab
        np.random.seed(d["seed"])
        with quiet():
            if kind == "markov":
                return markov.Markov(lab, fill_empty_classes=d["fill"])
            if kind == "fullrank":
                return markov.FullRank_Markov(y)
            if kind == "georank":
                return markov.GeoRank_Markov(y)
            if kind == "spatial":
                return markov.Spatial_Markov(y, self.w, k=3 - v, m=2 + v, fixed=True, fill_empty_classes=True)
            if kind == "spatialp":
                return markov.Spatial_Markov(y, self.w, permutations=9 + 4 * v, cutoffs=self.cuts[v:], lag_cutoffs=self.cuts, fill_empty_classes=True)
            if kind == "spatiald":
                return markov.Spatial_Markov(lab, self.w, discrete=True, fill_empty_classes=True)
            if kind == "lisa":
                return markov.LISA_Markov(y, self.w, geoda_quads=d["geoda"] != (v == 1))
            if kind == "lisap":
                return markov.LISA_Markov(y, self.w, permutations=19, significance_level=0.4 - 0.2 * v, geoda_quads=d["geoda"])
            if kind == "rose":
                return directional.Rose(self.Y2[:, ::-1] if v else self.Y2, self.w, k=12 - d["rk"] if v else d["rk"])
            if kind == "homogeneity":
                kw = {"regime_names": self.names, "class_names": self.cnames} if d["named"] else {}
                return markov.homogeneity(self.mats[::-1] if v else self.mats, **kw)
        raise KeyError(kind)

    def other(self, what):
        import numpy as np
        from esda.moran import Moran_Local
        from giddy import rank, sequence
        from libpysal.weights import lag_spatial

        np.random.seed(self.d["seed"])
        with quiet():
            if what == "spatialtau":
                r = rank.SpatialTau(self.a, self.b, self.w, 5)
                return [r.tau, r.tau_spatial, r.taus, r.tau_spatial_psim, r.concordant_spatial]
            if what == "tau_ln":
                r = rank.Tau_Local_Neighbor(self.a, self.b, self.w, 5)
                return [r.tau_ln, r.tau_ln_weights, r.tau_ln_sim, r.tau_ln_pvalues, r.sign]
            if what == "tau_lnhood":
                r = rank.Tau_Local_Neighborhood(self.a, self.b, self.w, 5)
                return [r.tau_lnhood, r.tau_lnhood_sim, r.tau_lnhood_pvalues]
            if what == "tau_reg":
                r = rank.Tau_Regional(self.a, self.b, self.regime, 5)
                return [r.tau_reg, r.tau_reg_sim, r.tau_reg_pvalues]
            if what == "theta":
                r = rank.Theta(self.y, self.regime, 5)
                return [r.theta, r.ranks, r.sim, r.pvalue_left]
            if what == "moran":
                # esda standardises the weights it is given: hand it others
                r = Moran_Local(self.a.astype(float), panels.make(self.d["w"]), permutations=0)
                return [r.Is, r.q]
            if what == "sequence":
                return [sequence.Sequence(self.lab, dist_type=t).seq_dis_mat for t in ("hamming", "tran", "markov")]
            if what == "lag":
                return [lag_spatial(self.w, self.a)]
        raise KeyError(what)


def figure_data(ax, fig=None):
    """What a figure shows."""
    import numpy as np

    out = []
    for c in ax.collections:
        off = np.ma.getdata(c.get_offsets())
        val = c.get_array()
        out.append([type(c).__name__, np.array(off, dtype=float) if len(off) else np.zeros(0),
                    np.zeros(0) if val is None else np.ma.filled(np.ma.asarray(val, dtype=float), np.nan).ravel()])
    for l in ax.lines:
        out.append(["line", np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)])
    out.append([t.get_text() for t in ax.texts])
    out.append([ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.name])
    return out


def call(obj, meth, data):
    """The result of a method: what it returns, prints or draws."""
    import matplotlib.pyplot as plt
    import numpy as np

    np.random.seed(data.d["seed"] ^ 77)  # the heatmap draws random numbers
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            if meth == "summary":
                obj.summary()
                return [buf.getvalue()]
            if meth == "spillover":
                return [obj.spillover()]
            if meth == "spillover_on":
                return [obj.spillover(neighbors_on=True)]
            if meth == "spillover_3":
                return [obj.spillover(quadrant=3)]
            if meth == "plot":
                return figure_data(obj.plot()[1])
            if meth == "plot_attribute":
                return figure_data(obj.plot(attribute=data.a)[1])
            if meth == "plot_vectors":
                return figure_data(obj.plot_vectors()[1])
            if meth == "plot_origin":
                plt.figure()
                obj.plot_origin()
                return figure_data(plt.gca())
            if meth == "heatmap":
                from giddy.plotting import dynamic_lisa_heatmap

                plt.figure()
                return figure_data(dynamic_lisa_heatmap(obj)[1])
    finally:
        plt.close("all")
    raise KeyError(meth)


def same(a, b):
    """Equal values; numbers may differ by rounding."""
    import numpy as np

    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    if type(a).__module__.startswith("giddy"):  # an object with results of its own
        return type(a) is type(b) and same({k: v for k, v in vars(a).items() if k[0] != "_"}, {k: v for k, v in vars(b).items() if k[0] != "_"})
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:
        return repr(a) == repr(b)
    if x.shape != y.shape:
        return False
    if x.dtype == object or y.dtype == object:
        if x.shape == ():
            return repr(a) == repr(b)
        return all(same(u, v) for u, v in zip(x.ravel().tolist(), y.ravel().tolist()))
    if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
        return bool(np.allclose(x.astype(complex), y.astype(complex), rtol=1e-9, atol=1e-12, equal_nan=True))
    return bool((x == y).all())


def snapshot(v):
    """A copy no later call can reach."""
    import copy

    import numpy as np

    if isinstance(v, np.ndarray):
        return copy.deepcopy(v)
    try:
        return copy.deepcopy(v)
    except Exception:
        return repr(v)


def attempt(fn, *a):
    """A value or the name of the exception raised instead."""
    try:
        with quiet():
            return snapshot(fn(*a))
    except Exception as e:
        return {"exc": type(e).__name__}
