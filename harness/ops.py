"""Every public operation of the library on one set of shared inputs."""
import contextlib
import io
import random

import gen
import panels
import world


class Inputs(world.Data):
    """The shared inputs, in several forms and layouts."""

    def __init__(self, d):
        import numpy as np
        from giddy.components import Graph

        super().__init__(d)
        rng = random.Random(d["seed"])
        o = rng.choice(["C", "F"])
        n, t = len(d["y"]), len(d["y"][0])
        self.y = np.asarray(self.y, order=o)
        self.Y2 = self.y[:, ::t - 1] if d["view"] else np.array(self.y[:, [0, -1]], order=o)
        self.a, self.b = self.y[:, 0], self.y[:, -1]
        self.ylist = self.y.tolist()
        self.lablist = self.lab.tolist()
        self.classes = sorted({v for r in self.lablist for v in r}, reverse=rng.random() < 0.5)
        self.regimelist = self.regime.tolist()
        k = 3
        self.P = np.array([[2.0, 1, 1], [1, 2, 1], [1, 1, 6]], order=o)
        self.P /= self.P.sum(axis=1, keepdims=True)
        self.Pr = np.array([[1.0, 0, 0], [0.25, 0.5, 0.25], [0, 0, 1]])  # reducible
        self.P0 = np.array([[0.5, 0.5, 0], [0, 0, 0], [0.5, 0, 0.5]], order=o)
        self.Plist = self.P.tolist()
        self.P3 = np.array([self.P, self.P0])
        self.ini = np.array([0.5, 0.25, 0.25])
        self.T1, self.T2 = self.mats
        self.F = np.array([[[rng.randint(0, 9) for _ in range(2)] for _ in range(3)] for _ in range(3)], dtype=rng.choice([int, float]))
        self.F[:, :, 0] += 1
        self.seqs = [r[: rng.randint(2, t)] for r in self.lablist]
        self.sub = np.array([[0.0, 1, 2], [1, 0, 1], [2, 1, 0]])[: len(self.classes), : len(self.classes)]
        kk = len(self.classes)
        self.sub_diag = np.array([[rng.choice([0, 0.5, 1, 2, 3.5]) for _ in range(kk)] for _ in range(kk)], order=o) + np.eye(kk)
        self.sub_int = np.array([[rng.randint(0, 4) + (i == j) for i in range(kk)] for j in range(kk)])
        # parts of larger arrays
        self.big = np.full((7, 7), 0.125)
        self.big[1:7:2, ::3] = self.P
        self.Pview = self.big[1:7:2, ::3]
        self.big0 = np.full((3, 5), 0.125)
        self.big0[:, ::-2] = self.P0
        self.P0view = self.big0[:, ::-2]
        self.P0int = np.array([[0, 1, 0], [0, 0, 0], [1, 0, 0]])
        self.bigy = np.full((2 * n, t + 2), -99.0)
        self.bigy[::2, 1:-1] = self.y
        self.yview = self.bigy[::2, 1:-1]
        self.wide = np.repeat(self.lab, 2, axis=1)
        self.labview = self.wide[:, ::2]
        self.labobj = self.lab.astype(object)
        self.regimebig = np.repeat(self.regime, 2)
        self.regimeview = self.regimebig[::2]
        self.matsint = [np.array([[rng.choice([0, 1, 2, 9]) for _ in range(3)] for _ in range(3)]) for _ in range(2)]
        self.matszero = [m * np.array([[1], [rng.randint(0, 1)], [1]]) for m in self.matsint]
        self.matsarr = np.array(self.matsint, dtype=float)
        self.matslist = [m.tolist() for m in self.matsint]
        self.Flist = None
        self.digraph = Graph(undirected=False)
        self.digraph.add_edge(1, 2, 0.5)
        self.X = np.arange(16).reshape(4, 4)
        self.ids = rng.choice([list(range(4)), np.arange(4)])
        self.Flist = self.F.tolist()
        self.graph = Graph()
        for a, b in [(1, 2), (2, 3), (4, 5), (3, 1), (6, 6)]:
            self.graph.add_edge(a, b, rng.choice([0.5, 1.0]))
        us = list(self.w.id_order)
        self.units = [us[0]] + list(self.w.neighbors[us[0]])
        self.leaver = self.units[rng.randrange(len(self.units))]
        self.gdf = None

    def frame(self):
        if self.gdf is None:
            import geopandas as gpd
            from shapely.geometry import Polygon

            self.gdf = gpd.GeoDataFrame({"v": list(self.a)}, geometry=[Polygon([(i, 0), (i + 1, 0), (i + 1, 1), (i, 1)]) for i in range(len(self.a))])
        return self.gdf

    INPUTS = ["y", "lab", "Y2", "regime", "cuts", "mats", "names", "cnames", "ylist", "lablist", "classes", "regimelist", "P", "Pr", "P0",
              "Plist", "P3", "ini", "F", "seqs", "sub", "X", "ids", "graph", "units", "w", "gdf", "objects",
              "sub_diag", "sub_int", "big", "big0", "P0int", "bigy", "wide", "labobj", "regimebig", "matsint", "matszero", "matsarr", "matslist", "Flist", "digraph"]

    def freeze(self):
        """Arrays that may not be written; the id list is meant to be."""
        import numpy as np

        for name in self.INPUTS + ["a", "b", "T1", "T2", "Pview", "P0view", "yview", "labview", "regimeview"]:
            v = getattr(self, name, None)
            for a in v if isinstance(v, list) else [v]:
                if isinstance(a, np.ndarray) and name != "ids":
                    a.flags.writeable = False

    def fingerprint(self):
        res = {}
        for name in self.INPUTS:
            res[name] = self.objects() if name == "objects" else mark(getattr(self, name))
        return res

    # objects built once, handed to the plots and methods
    def held(self):
        if not hasattr(self, "_held"):
            import numpy as np

            st = np.random.get_state()
            self._held = {"rose": self.new("rose"), "lisap": self.new("lisap"), "spatial": self.new("spatial"), "homogeneity": self.new("homogeneity"),
                          "markov": self.new("markov"), "lisa": self.new("lisa")}
            np.random.set_state(st)
        return self._held

    def objects(self):
        return {k: mark({a: v for a, v in vars(o).items() if a in OBSERVED[k]}) for k, o in self.held().items()}


OBSERVED = {"markov": ["p", "transitions", "classes", "k"], "lisa": ["p", "transitions", "q", "move_types", "expected_t"],
            "rose": ["Y", "k", "cuts", "counts", "theta", "bins", "r", "lag", "wY", "p", "counts_perm"],
            "lisap": ["q", "p_values", "transitions", "p", "significant_moves", "move_types", "chi_2", "expected_t"],
            "spatial": ["T", "P", "p", "transitions", "class_ids", "lclass_ids", "cutoffs", "lag_cutoffs", "k", "m"],
            "homogeneity": ["Q", "LR", "dof", "p_h0", "p_h1", "LR_table", "Q_table", "regime_names", "k", "m"]}


def mark(v):
    """A value that tells whether an input has changed."""
    import numpy as np

    if isinstance(v, np.ndarray):
        return ["array", v.dtype.str, list(v.shape), [str(x) for x in v.ravel().tolist()] if v.dtype == object else v.tobytes()]
    if isinstance(v, dict):
        return ["dict", [[repr(k), mark(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [mark(x) for x in v]]
    kind = type(v).__name__
    if kind == "W":
        return ["W", mark({k: list(x) for k, x in v.neighbors.items()}), mark({k: list(x) for k, x in v.weights.items()}),
                list(v.id_order), v.transform, v.n]
    if kind == "Graph":
        return ["Graph", sorted(map(repr, v.nodes)), mark(v.edges), v.undirected]
    if kind == "GeoDataFrame":
        return ["gdf", list(v.columns), v.to_wkt().to_json()]
    return [kind, repr(v)]


# ------------------------------------------------------------- settings ----
WATCHED = ("numpy", "numpy.random", "numpy.linalg", "scipy.stats", "scipy.linalg", "libpysal.weights", "libpysal", "esda.moran", "esda",
           "mapclassify", "quantecon", "itertools", "operator", "copy", "builtins")


def modules():
    import sys

    return [m for m in sorted(sys.modules) if m.split(".")[0] == "giddy" or m in WATCHED]


def settings(mods):
    """Global settings and namespaces that no analysis may change."""
    import os
    import random as pyrandom
    import sys
    import types
    import warnings

    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd

    res = {
        "matplotlib": {k: repr(v) for k, v in mpl.rcParams.items() if k != "backend"},
        "numpy errors": repr(np.geterr()), "print options": repr(np.get_printoptions()),
        "warnings": repr(warnings.filters), "environment": dict(os.environ), "cwd": os.getcwd(), "path": list(sys.path),
        "python random": pyrandom.getstate(), "recursion": sys.getrecursionlimit(),
        "pandas": repr([pd.get_option(o) for o in ("display.max_rows", "display.precision", "mode.chained_assignment")]),
        "figures": plt.get_fignums(),
    }
    for name in mods:
        m = sys.modules[name]
        d = vars(m)
        ours = name.split(".")[0] == "giddy"
        # what a module keeps under a private name is its own affair; constants there are still watched
        res["namespace " + name] = {k: id(v) for k, v in d.items() if not (ours and k.startswith("_"))}
        if ours:
            for k, v in list(d.items()):
                if k.startswith("__") or (k.startswith("_") and isinstance(v, (dict, list, int, float))):
                    continue
                if isinstance(v, (np.ndarray, dict, list, int, float, str)):
                    res["constant %s.%s" % (name, k)] = mark(v)
                elif isinstance(v, types.FunctionType) and v.__module__ == name:
                    res["defaults %s.%s" % (name, k)] = repr(v.__defaults__)
                elif isinstance(v, type) and v.__module__ == name:
                    for a, f in vars(v).items():
                        if isinstance(f, types.FunctionType):
                            res["defaults %s.%s.%s" % (name, k, a)] = repr(f.__defaults__)
                        elif not callable(f) and not a.startswith("_") and not isinstance(f, property):
                            res["class %s.%s.%s" % (name, k, a)] = repr(f)
    return res


def changed_settings(a, b, plots):
    """Plots may open figures; modules imported late may appear in namespaces."""
    import sys
    import types

    res = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x == y or (k == "figures" and plots):
            continue
        if k.startswith("namespace "):
            d = vars(sys.modules[k[10:]])
            if all(n.startswith("__") or isinstance(d.get(n), types.ModuleType) for n in set(x) | set(y) if x.get(n) != y.get(n)):
                continue
        res.append(k)
    return res


def differing(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))


# ----------------------------------------------------------- operations ----
def public(o, also=()):
    """What an object says: its public attributes."""
    res = {k: v for k, v in vars(o).items() if not k.startswith("_") and k not in ("w", "label_dict", "dict_trans_state")}
    for a in also:
        res[a] = world.attempt(getattr, o, a)
    return {k: v for k, v in res.items() if not callable(v)}


LAZY = ["steady_state", "mfpt", "sojourn_time"]
SPATIAL = ["s", "S", "f", "F", "Q", "Q_p_value", "LR", "LR_p_value", "dof_hom", "shtest", "chi2", "x2", "x2_pvalue", "x2_dof"]


def table():
    """name -> (function of the inputs, whether it plots)"""
    import numpy as np
    from giddy import components, directional, ergodic, markov, mobility, plotting, rank, sequence, util

    def nop(o):
        return {k: v for k, v in public(o).items() if k != "ht"}

    ops = {
        "markov": lambda D: public(markov.Markov(D.lab), LAZY),
        "markov_listed": lambda D: public(markov.Markov(D.lab, classes=np.array(D.classes), fill_empty_classes=True), LAZY),
        "markov_quiet": lambda D: public(markov.Markov(D.lab, classes=np.array(D.classes), summary=False), LAZY),
        "fullrank": lambda D: public(markov.FullRank_Markov(D.y), LAZY),
        "fullrank_list": lambda D: public(markov.FullRank_Markov(D.ylist, fill_empty_classes=True, summary=False), LAZY),
        "georank": lambda D: public(markov.GeoRank_Markov(D.y), LAZY),
        "georank_list": lambda D: public(markov.GeoRank_Markov(D.ylist, summary=False), LAZY),
        "spatial": lambda D: nop(markov.Spatial_Markov(D.y, D.w, k=3, m=2)),
        "spatial_all": lambda D: public(markov.Spatial_Markov(D.y, D.w, k=2, m=2, fill_empty_classes=True), SPATIAL),
        "spatial_free": lambda D: public(markov.Spatial_Markov(D.ylist, D.w, k=2, m=2, fixed=False, fill_empty_classes=True), SPATIAL),
        "spatial_cut": lambda D: public(markov.Spatial_Markov(D.y, D.w, cutoffs=D.cuts, lag_cutoffs=D.cuts, variable_name="v"), SPATIAL),
        "spatial_summary": lambda D: markov.Spatial_Markov(D.y, D.w, k=2, m=2, variable_name="v").summary(),
        "spatial_perm": lambda D: public(markov.Spatial_Markov(D.y, D.w, k=2, m=2, permutations=5), SPATIAL),
        "spatial_cutperm": lambda D: public(markov.Spatial_Markov(D.y, D.w, cutoffs=D.cuts, lag_cutoffs=D.cuts, permutations=3), SPATIAL),
        "spatial_discrete": lambda D: public(markov.Spatial_Markov(D.lab, D.w, discrete=True, fill_empty_classes=True), SPATIAL),
        "spatial_discreteperm": lambda D: public(markov.Spatial_Markov(D.lab, D.w, discrete=True, permutations=3), SPATIAL),
        "held_spatial_read": lambda D: public(D.held()["spatial"], SPATIAL),
        "held_spatial_summary": lambda D: D.held()["spatial"].summary(),
        "lisa": lambda D: public(markov.LISA_Markov(D.y, D.w), LAZY),
        "lisa_geoda": lambda D: public(markov.LISA_Markov(D.y, D.w, geoda_quads=True), LAZY),
        "lisa_spill": lambda D: markov.LISA_Markov(D.y, D.w).spillover(),
        "lisa_perm": lambda D: public(markov.LISA_Markov(D.y, D.w, permutations=9, significance_level=0.3)),
        "lisa_permspill": lambda D: markov.LISA_Markov(D.y, D.w, permutations=9, significance_level=0.4).spillover(quadrant=3, neighbors_on=True),
        "held_lisa_spill": lambda D: [D.held()["lisap"].spillover(quadrant=q, neighbors_on=b) for q in (1, 3) for b in (False, True)],
        "chi2": lambda D: markov.chi2(D.T1, D.T2),
        "homogeneity": lambda D: public(markov.homogeneity(D.mats, regime_names=D.names, class_names=D.cnames)),
        "homogeneity_summary": lambda D: markov.homogeneity(D.mats, regime_names=D.names, class_names=D.cnames).summary(),
        "homogeneity_unnamed": lambda D: [markov.homogeneity(D.mats).summary(title="T"), public(markov.homogeneity(D.mats))],
        "held_homogeneity_summary": lambda D: D.held()["homogeneity"].summary(),
        "kullback": lambda D: markov.kullback(D.F),
        "prais": lambda D: markov.prais(D.P),
        "prais_list": lambda D: markov.prais(D.Plist),
        "sojourn": lambda D: markov.sojourn_time(D.P),
        "sojourn_list": lambda D: markov.sojourn_time(D.Plist, summary=False),
        "sojourn_absorbing": lambda D: [markov.sojourn_time(D.Pr), markov.sojourn_time(D.P0)],
        "steady": lambda D: [ergodic.steady_state(D.P), ergodic.steady_state(D.Pr), ergodic.steady_state(D.Plist)],
        "steady_fill": lambda D: ergodic.steady_state(D.P0, fill_empty_classes=True),
        "steady_rejected": lambda D: ergodic.steady_state(D.P0),
        "mfpt": lambda D: [ergodic.mfpt(D.P), ergodic.mfpt(D.Pr), ergodic.mfpt(D.Plist)],
        "mfpt_fill": lambda D: ergodic.mfpt(D.P0, fill_empty_classes=True),
        "mfpt_rejected": lambda D: ergodic.mfpt(D.P0),
        "var_mfpt": lambda D: [ergodic.var_mfpt_ergodic(D.P), ergodic.var_mfpt_ergodic(D.Plist)],
        "deprecated": lambda D: [ergodic.fmpt(D.P), ergodic.var_fmpt_ergodic(D.P)],
        "mobility": lambda D: [mobility.markov_mobility(D.P, measure=m) for m in ("P", "D", "L2", "B1", "B2")],
        "mobility_ini": lambda D: [mobility.markov_mobility(D.Plist, measure=m, ini=D.ini) for m in ("B1", "B2")],
        "tau": lambda D: public(rank.Tau(D.a, D.b)),
        "tau_list": lambda D: public(rank.Tau([r[0] for r in D.ylist], [r[1] for r in D.ylist])),
        "spatialtau": lambda D: public(rank.SpatialTau(D.a, D.b, D.w)),
        "spatialtau_perm": lambda D: public(rank.SpatialTau(D.a, D.b, D.w, 5)),
        "tau_local": lambda D: public(rank.Tau_Local(D.a, D.b)),
        "tau_ln": lambda D: public(rank.Tau_Local_Neighbor(D.a, D.b, D.w)),
        "tau_ln_perm": lambda D: public(rank.Tau_Local_Neighbor(D.a, D.b, D.w, 3)),
        "tau_lnhood": lambda D: public(rank.Tau_Local_Neighborhood(D.a, D.b, D.w)),
        "tau_lnhood_perm": lambda D: public(rank.Tau_Local_Neighborhood(D.a, D.b, D.w, 3)),
        "tau_reg": lambda D: public(rank.Tau_Regional(D.a, D.b, D.regime)),
        "tau_reg_list": lambda D: public(rank.Tau_Regional(D.a, D.b, D.regimelist)),
        "tau_reg_perm": lambda D: public(rank.Tau_Regional(D.a, D.b, D.regime, 5)),
        "theta": lambda D: public(rank.Theta(D.y, D.regime, 0)),
        "theta_perm": lambda D: public(rank.Theta(D.y, D.regime, 5)),
        "sequence_om": lambda D: public(sequence.Sequence(D.lab, subs_mat=D.sub, indel=1)),
        "sequence_ragged": lambda D: public(sequence.Sequence(D.seqs, subs_mat=D.sub, indel=0.5)),
        "sequence_types": lambda D: [public(sequence.Sequence(D.lab, dist_type=t)) for t in ("hamming", "interval", "arbitrary", "markov", "tran")],
        "sequence_list": lambda D: [public(sequence.Sequence(D.lablist, dist_type=t)) for t in ("hamming", "markov", "tran")],
        "sequence_rejected": lambda D: sequence.Sequence(D.lab, dist_type="other"),
        "rose": lambda D: public(directional.Rose(D.Y2, D.w, k=4)),
        "rose_panel": lambda D: public(directional.Rose(D.y, D.w)),
        "rose_perm": lambda D: permuted(directional.Rose(D.Y2, D.w, k=4), 5),
        "rose_permpos": lambda D: permuted(directional.Rose(D.Y2, D.w, k=8), 5, "positive"),
        "rose_permodd": lambda D: permuted(directional.Rose(D.Y2, D.w, k=8), 5, "odd"),
        "sequence_diag": lambda D: public(sequence.Sequence(D.lab, subs_mat=D.sub_diag, indel=1)),
        "sequence_int": lambda D: public(sequence.Sequence(D.lablist, subs_mat=D.sub_int, indel=1)),
        "sequence_free": lambda D: public(sequence.Sequence(D.seqs, subs_mat=D.sub_diag, indel=0)),
        "homogeneity_array": lambda D: public(markov.homogeneity(D.matsarr, class_names=D.cnames)),
        "homogeneity_listed": lambda D: [public(markov.homogeneity(D.matszero)), world.attempt(lambda: public(markov.homogeneity(D.matslist)))],
        "chi2_int": lambda D: [markov.chi2(D.matsint[0], D.matsint[1]), markov.chi2(D.T1, D.matsint[0])],
        "chi2_zero": lambda D: [world.attempt(markov.chi2, D.matszero[0], D.T2), world.attempt(markov.chi2, D.matslist[0], D.matslist[1])],
        "kullback_list": lambda D: [world.attempt(markov.kullback, D.Flist), markov.kullback(D.matsarr.swapaxes(0, 2))],
        "held_markov_use": lambda D: used(D.held()["markov"]) + used(D.held()["lisa"]),
        "held_spatial_use": lambda D: [public(markov.homogeneity(D.held()["spatial"].T)), world.attempt(markov.chi2, D.held()["spatial"].T[0], D.held()["spatial"].transitions),
                                       markov.kullback(D.held()["spatial"].T)] + used(D.held()["spatial"]),
        "steady_view": lambda D: [ergodic.steady_state(D.Pview), ergodic.steady_state(D.P0view, fill_empty_classes=True)],
        "mfpt_view": lambda D: [ergodic.mfpt(D.Pview), ergodic.mfpt(D.P0view, fill_empty_classes=True), ergodic.var_mfpt_ergodic(D.Pview)],
        "mobility_view": lambda D: [mobility.markov_mobility(D.Pview, measure=m, ini=D.big[0, ::3]) for m in ("P", "D", "L2", "B1", "B2")] + [markov.prais(D.Pview)],
        "sojourn_view": lambda D: [markov.sojourn_time(D.Pview), markov.sojourn_time(D.P0view), world.attempt(markov.sojourn_time, D.P0int)],
        "fill_view": lambda D: [util.fill_empty_diagonals(D.P0view), util.get_lower(D.big[:6:2, ::3])],
        "fill_int": lambda D: [util.fill_empty_diagonals(D.P0int), ergodic.steady_state(D.P0int, fill_empty_classes=True), ergodic.mfpt(D.P0int, fill_empty_classes=True)],
        "markov_view": lambda D: public(markov.Markov(D.labview, fill_empty_classes=True), LAZY),
        "markov_object": lambda D: world.attempt(lambda: public(markov.Markov(D.labobj, classes=np.array(D.classes)), LAZY)),
        "spatial_view": lambda D: public(markov.Spatial_Markov(D.yview, D.w, k=2, m=2, fill_empty_classes=True), SPATIAL),
        "spatial_free_cut": lambda D: public(markov.Spatial_Markov(D.yview, D.w, cutoffs=D.cuts, lag_cutoffs=D.cuts, fixed=False, fill_empty_classes=True), SPATIAL),
        "spatial_strided": lambda D: world.attempt(lambda: public(markov.Spatial_Markov(D.y[:, ::-1], D.w, k=3, m=2, fixed=False, fill_empty_classes=True), SPATIAL)),
        "lisa_view": lambda D: [public(markov.LISA_Markov(D.yview, D.w), LAZY), markov.LISA_Markov(D.y[:, ::-1], D.w).spillover(neighbors_on=True)],
        "rose_view": lambda D: [public(directional.Rose(D.yview[:, ::t_of(D)], D.w, k=8)), public(directional.Rose(D.y[:, ::-1], D.w, k=4))],
        "tau_view": lambda D: [public(rank.Tau(D.yview[:, 0], D.yview[:, -1])), public(rank.Tau_Regional(D.yview[:, 0], D.yview[:, -1], D.regimeview)),
                               public(rank.Tau_Local_Neighborhood(D.yview[:, 0], D.yview[:, -1], D.w))],
        "theta_view": lambda D: public(rank.Theta(D.yview, D.regimeview, 0)),
        "theta_list": lambda D: world.attempt(lambda: public(rank.Theta(np.array(D.ylist), D.regimelist, 0))),
        "spatialtau_list": lambda D: world.attempt(lambda: public(rank.SpatialTau([r[0] for r in D.ylist], [r[1] for r in D.ylist], D.w))),
        "tau_listed": lambda D: [world.attempt(lambda f=f: public(f([r[0] for r in D.ylist], [r[1] for r in D.ylist], D.w)))
                                 for f in (rank.Tau_Local_Neighbor, rank.Tau_Local_Neighborhood)],
        "graph_directed": lambda D: D.digraph.connected_components(),
        "contiguity_leavers": lambda D: [components.check_contiguity(D.w, D.units, u) for u in D.units] + [components.is_component(D.w, D.units[::-1])],
        "fill": lambda D: [util.fill_empty_diagonals(D.P0), util.fill_empty_diagonals(D.P3), util.fill_empty_diagonals(D.P)],
        "lower": lambda D: [util.get_lower(D.X), util.get_lower(D.P)],
        "shuffle": lambda D: util.shuffle_matrix(D.X, D.ids),
        "contiguity": lambda D: components.check_contiguity(D.w, D.units, D.leaver),
        "component": lambda D: components.is_component(D.w, D.units),
        "graph": lambda D: [sorted(sorted(map(repr, c.nodes)) for c in D.graph.connected_components(threshold=0.7, op=op)) for op in (lt, gt)],
    }
    plots = {
        "plot_rose": lambda D: world.figure_data(D.held()["rose"].plot()[1]),
        "plot_attribute": lambda D: world.figure_data(D.held()["rose"].plot(attribute=D.a)[1]),
        "plot_axes": lambda D: world.figure_data(D.held()["rose"].plot(ax=plt().figure().add_subplot(111, projection="polar"), color="k")[1]),
        "plot_rejected": lambda D: D.held()["rose"].plot(attribute=D.a, c="r"),
        "plot_failing": lambda D: D.held()["rose"].plot(ax=plt().figure().add_subplot(111)),
        "plot_vectors": lambda D: world.figure_data(D.held()["rose"].plot_vectors(arrows=False)[1]),
        "plot_arrows": lambda D: world.figure_data(plotting.dynamic_lisa_vectors(D.held()["rose"], c="r")[1]),
        "plot_origin": lambda D: [plt().figure(), D.held()["rose"].plot_origin(), world.figure_data(plt().gca())][2],
        "heatmap": lambda D: [plt().figure(), world.figure_data(plotting.dynamic_lisa_heatmap(D.held()["rose"], p=0.3)[1])][1],
        "heatmap_mask": lambda D: [plt().figure(), world.figure_data(plotting.dynamic_lisa_heatmap(D.held()["rose"], mask=None, annot=False)[1])][1],
        "composite": lambda D: [world.figure_data(a) for a in plotting.dynamic_lisa_composite(D.held()["rose"], D.frame(), p=0.3)[1]],
    }
    res = {k: (f, False) for k, f in ops.items()}
    res.update({k: (f, True) for k, f in plots.items()})
    return res


def used(m):
    """What the functions say of an object's own probabilities."""
    from giddy import ergodic, markov, mobility, util

    return [ergodic.steady_state(m.p, fill_empty_classes=True), ergodic.mfpt(m.p, fill_empty_classes=True), markov.sojourn_time(m.p, summary=False),
            markov.prais(m.p), util.fill_empty_diagonals(m.p), world.attempt(mobility.markov_mobility, m.p), world.attempt(ergodic.var_mfpt_ergodic, m.p)]


def t_of(D):
    return D.yview.shape[1] - 1


def permuted(r, *a):
    r.permute(*a)
    return public(r)


def plt():
    import matplotlib.pyplot

    return matplotlib.pyplot


from operator import gt, lt  # noqa: E402


def arrays(o, depth=0):
    """The arrays within a value."""
    import numpy as np

    if isinstance(o, np.ndarray):
        yield o
        if o.dtype == object and depth < 4:
            for v in o.ravel():
                yield from arrays(v, depth + 1)
    elif isinstance(o, (list, tuple)) and depth < 4:
        for v in o:
            yield from arrays(v, depth + 1)
    elif isinstance(o, dict) and depth < 4:
        for v in o.values():
            yield from arrays(v, depth + 1)


_times = [0]


def scribble(res, D):
    """A caller writes into the arrays of a result of its own."""
    import numpy as np

    _times[0] += 1
    held = list(arrays({k: v for k, v in vars(D).items() if not callable(v)}))
    for a in list(arrays(res)):
        if a.flags.writeable and a.dtype.kind in "fiub" and not any(np.may_share_memory(a, h) for h in held):
            a[...] = 1 if a.dtype.kind == "b" else 20 + _times[0] % 100


def perform(what, D, tab, write=True):
    """Result or exception, and what is printed."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            raw = tab[what][0](D)
            v = world.snapshot(raw)
        if write and not what.startswith("held"):
            scribble(raw, D)
    except Exception as e:
        v = {"exc": type(e).__name__}
    return [v, buf.getvalue()]
