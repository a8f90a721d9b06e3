"""Thin access to the public interface of the code under test."""
import copy
import json
import os

import numpy as np
import pandas as pd

from . import boot
import PyCTBN.PyCTBN as _pkg
assert os.path.abspath(_pkg.__file__).startswith(os.path.abspath(boot.REPO)), _pkg.__file__

from PyCTBN.PyCTBN.structure_graph.structure import Structure
from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.structure_graph.trajectory import Trajectory
from PyCTBN.PyCTBN.structure_graph.set_of_cims import SetOfCims
from PyCTBN.PyCTBN.structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
from PyCTBN.PyCTBN.utility.abstract_importer import AbstractImporter
from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
from PyCTBN.PyCTBN.utility.cache import Cache
from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
from PyCTBN.PyCTBN.estimators.fam_score_calculator import FamScoreCalculator
from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator


def frames(d, cols=None):
    """The trajectories as frames [time | variables]."""
    s = 2.0 ** -d["unit"]
    out = []
    for tr in d["trajs"]:
        x = np.array(tr["x"], dtype=int).reshape(len(tr["x"]), len(d["labels"]))
        f = {d["time"]: [t * s for t in tr["t"]]}
        for j, l in enumerate(d["labels"]):
            f[l] = x[:, j]
        out.append(dressed(pd.DataFrame(f), d.get("look")))
    return out


def dressed(f, look):
    """The same rows in the same order with another index and other column types."""
    if not look:
        return f
    n = len(f)
    types = {c: look["states"] for c in f.columns[1:]} if "states" in look else {}
    if "times" in look and f.iloc[:, 0].max() < 2 ** 31:
        types[f.columns[0]] = look["times"]
    f = f.astype(types)
    kind = look.get("index")
    if kind == "shuffled":
        f.index = np.random.RandomState(n).permutation(n)
    elif kind == "same":
        f.index = np.zeros(n, dtype=int)
    elif kind == "backwards":
        f.index = np.arange(n)[::-1]
    elif kind == "text":
        f.index = ["row %d" % (i * 7 % 10) for i in range(n)]
    elif kind == "later":
        f.index = np.arange(n) * 0.5 + 1000
    return f


def large_frames(d, arrays):
    out = []
    for t, x in arrays:
        f = pd.DataFrame(x, columns=list(d["labels"]))
        f.insert(0, d["time"], t * 2.0 ** -d["unit"])
        out.append(f)
    return out


def path_of(frames, d, edges=None):
    imp = SampleImporter(trajectory_list=frames, variables=variables_frame(d),
                         prior_net_structure=None if edges is None else edges_frame(d, edges))
    imp.import_data()
    s = SamplePath(imp)
    s.build_trajectories()
    s.build_structure()
    return s


def variables_frame(d):
    return pd.DataFrame({"Name": list(d["labels"]), "Value": list(d["cards"])})


def edges_frame(d, edges):
    return pd.DataFrame([[d["labels"][i], d["labels"][j]] for i, j in edges], columns=["From", "To"])


def importer(d, edges=None):
    imp = SampleImporter(trajectory_list=frames(d), variables=variables_frame(d),
                         prior_net_structure=None if edges is None else edges_frame(d, edges))
    imp.import_data()
    return imp


def sample_path(d, edges=None):
    """The documented way: import, build the trajectories, build the structure."""
    s = SamplePath(importer(d, edges))
    s.build_trajectories()
    s.build_structure()
    return s


def set_of_cims(s, label):
    """The documented way to estimate the parameters of one variable with the edges of the sample path."""
    g = NetworkGraph(s.structure)
    g.fast_init(label)
    p = ParametersEstimator(s.trajectories, g)
    p.fast_init(label)
    return p.compute_parameters_for_node(label), g


def family_cims(s, d, child, parents):
    """Cims of a child given parents (indices), through an own Structure on the same trajectories."""
    g = family_graph(d, child, parents)
    l = d["labels"][child]
    g.fast_init(l)
    p = ParametersEstimator(s.trajectories, g)
    p.fast_init(l)
    return p.compute_parameters_for_node(l)


def family_graph(d, child, parents, more=()):
    L = d["labels"]
    st = Structure(list(L), np.arange(len(L)), np.array(d["cards"]),
                   [(L[p], L[child]) for p in parents] + [(L[a], L[b]) for a, b in more], len(L))
    return NetworkGraph(st)


def by_comb(sofc, n_parents):
    """{joint parent state: cim}, with the check that every combination appears once."""
    combs = np.asarray(sofc.p_combs).reshape(-1, n_parents) if n_parents else np.zeros((1, 0), int)
    return [tuple(int(v) for v in row) for row in combs], list(sofc.actual_cims)


def json_dataset(d, edges, cims=None, element=None, columns=None):
    """The data set as the documented JSON object."""
    s = 2.0 ** -d["unit"]
    out = {"dyn.str": [{"From": d["labels"][i], "To": d["labels"][j]} for i, j in edges],
           "variables": [{"Name": l, "Value": c} for l, c in zip(d["labels"], d["cards"])],
           "samples": [[dict([(d["time"], t * s)] + list(zip(d["labels"], x))) for t, x in zip(tr["t"], tr["x"])]
                       for tr in d["trajs"]]}
    if cims is not None:
        out["dyn.cims"] = cims
    return out


def rekeyed(x, order, at=0):
    """The same JSON content with the keys of its objects in another order."""
    if isinstance(x, list):
        return [rekeyed(v, order, at + k) for k, v in enumerate(x)]
    if not isinstance(x, dict):
        return x
    keys = list(x)
    if order == "sorted":
        keys.sort()
    elif order == "reversed":
        keys.reverse()
    elif order == "any":
        keys = [keys[k] for k in np.random.RandomState(at + len(keys)).permutation(len(keys))]
    return {k: rekeyed(x[k], order, at + 7) for k in keys}


KEYS = {"samples": "samples", "dyn.str": "dyn.str", "variables": "variables", "dyn.cims": "dyn.cims"}


def json_importer(path, time, cims=True, keys=KEYS, name="Name"):
    return JsonImporter(file_path=path, samples_label=keys["samples"], structure_label=keys["dyn.str"],
                        variables_label=keys["variables"], time_key=time, variables_key=name,
                        cims_label=keys["dyn.cims"] if cims else None)


def edge_set(edges):
    return {(str(a), str(b)) for a, b in edges}


def named(d, edges):
    return {(d["labels"][i], d["labels"][j]) for i, j in edges}
