PRELUDE = '''import os, sys, tempfile, json, random, io, contextlib
sys.path.insert(0, os.getcwd())
work = tempfile.TemporaryDirectory()
os.environ["MPLCONFIGDIR"] = work.name
import warnings; warnings.filterwarnings("ignore")
import numpy as np, pandas as pd, networkx as nx
np.seterr(all="ignore")
from PyCTBN.PyCTBN.structure_graph.structure import Structure
from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.structure_graph.set_of_cims import SetOfCims
from PyCTBN.PyCTBN.structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
from PyCTBN.PyCTBN.utility.cache import Cache
from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
from PyCTBN.PyCTBN.estimators.fam_score_calculator import FamScoreCalculator
from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator
os.chdir(work.name)


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def variables(labels, cards):
    return pd.DataFrame({"Name": list(labels), "Value": list(cards)})


def edges_frame(edges):
    return pd.DataFrame([list(e) for e in edges], columns=["From", "To"])


def frame(labels, rows):
    """rows: (time, states...)"""
    return pd.DataFrame([list(r) for r in rows], columns=["Time"] + list(labels)).astype({"Time": float})


def random_frame(rng, labels, cards, n, dt=None):
    x = [0] * len(labels)
    t = 0.0
    rows = [(t, *x)]
    for _ in range(n):
        t += float(dt if dt else rng.expovariate(1.0))
        i = rng.randrange(len(labels))
        x[i] = (x[i] + 1 + rng.randrange(cards[i] - 1)) % cards[i]
        rows.append((t, *x))
    rows.append((t + 0.5, *([-1] * len(labels))))
    return frame(labels, rows)


def path(frames, labels, cards, edges=None):
    imp = SampleImporter(trajectory_list=frames, variables=variables(labels, cards),
                         prior_net_structure=None if edges is None else edges_frame(edges))
    imp.import_data()
    s = SamplePath(imp)
    s.build_trajectories()
    s.build_structure()
    return s


def cims_of(s, labels, cards, child, parents):
    st = Structure(list(labels), np.arange(len(labels)), np.array(cards), [(p, child) for p in parents], len(labels))
    g = NetworkGraph(st)
    g.fast_init(child)
    p = ParametersEstimator(s.trajectories, g)
    p.fast_init(child)
    return p.compute_parameters_for_node(child)


def statistics(frames, labels, cards, child, parents):
    """Times and counts by a plain loop: {parents' states: (T, M)}"""
    import itertools
    par = [l for l in labels if l in parents]
    c = cards[list(labels).index(child)]
    out = {k: (np.zeros(c), np.zeros((c, c))) for k in
           itertools.product(*[range(cards[list(labels).index(p)]) for p in par])}
    for f in frames:
        r = f.to_dict("records")
        for a, b in zip(r, r[1:]):
            T, M = out[tuple(int(a[p]) for p in par)]
            T[int(a[child])] += b["Time"] - a["Time"]
            if b[child] >= 0 and b[child] != a[child]:
                M[int(a[child]), int(b[child])] += 1
    return out


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def network(labels, cards, edges, rates):
    """rates(label, parents' states, state) -> row of rates (diagonal ignored)"""
    import itertools
    cims = {}
    for l, c in zip(labels, cards):
        par = [p for p in labels if (p, l) in edges]
        pc = [cards[labels.index(p)] for p in par]
        combs = [k[::-1] for k in itertools.product(*[range(v) for v in pc[::-1]])]
        ms = []
        for k in combs:
            m = np.zeros((c, c))
            for x in range(c):
                m[x] = rates(l, k, x)
                m[x, x] = 0
                m[x, x] = -m[x].sum()
            ms.append(ConditionalIntensityMatrix(cim=m))
        cims[l] = SetOfCims(node_id=l, parents_states_number=pc, node_states_number=c,
                            p_combs=np.array(combs).reshape(len(combs), len(par)), cims=np.array(ms))
    return variables(labels, cards), edges_frame(edges), cims


def sampler(net):
    return TrajectoryGenerator(variables=net[0], dyn_str=net[1], dyn_cims=net[2])
'''
B = []
BUGS = B
def bug(id, prop, edits, needs, breaks, demo, **k):
    B.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

PE='estimators/parameters_estimator.py'; FS='estimators/fam_score_calculator.py'; CB='estimators/structure_constraint_based_estimator.py'
SE='estimators/structure_estimator.py'; SB='estimators/structure_score_based_estimator.py'
OC='optimizers/constraint_based_optimizer.py'; HC='optimizers/hill_climbing_search.py'; TS='optimizers/tabu_search.py'
CIM='structure_graph/conditional_intensity_matrix.py'; NG='structure_graph/network_generator.py'; GR='structure_graph/network_graph.py'
SP='structure_graph/sample_path.py'; SC='structure_graph/set_of_cims.py'; ST='structure_graph/structure.py'; TR='structure_graph/trajectory.py'
TG='structure_graph/trajectory_generator.py'; AI='utility/abstract_importer.py'; JI='utility/json_importer.py'; SI='utility/sample_importer.py'
JE='utility/json_exporter.py'; AE='utility/abstract_exporter.py'; CA='utility/cache.py'

STATDEMO = '''
rng = random.Random(3)
labels = %(labels)s
cards = %(cards)s
fs = [random_frame(rng, labels, cards, %(n)d) for _ in range(2)]
s = path(fs, labels, cards)
parents = %(parents)s
c = cims_of(s, labels, cards, "%(child)s", parents)
ref = statistics(fs, labels, cards, "%(child)s", parents)
for comb, cim in zip(c.p_combs, c.actual_cims):
    T, M = ref[tuple(int(v) for v in comb)]
    check(np.allclose(cim.state_residence_times, T), "residence times")
    got = cim.state_transition_matrix.copy()
    check(np.array_equal(np.diag(got), M.sum(axis=1)), "departures")
    np.fill_diagonal(got, 0)
    check(np.array_equal(got, M), "transitions")
'''
TESTDEMO = '''
from scipy.stats import chi2, f as fd
def decide(fs, labels, cards, child, parent, sep, ea, ca, thumb):
    c = cards[labels.index(child)]
    if True:
        one = statistics(fs, labels, cards, child, sep)
        two = statistics(fs, labels, cards, child, sep + [parent])
        sp = [l for l in labels if l in sep]; tp = [l for l in labels if l in sep + [parent]]
        df = (c - 1) ** 2 * cards[labels.index(parent)] * int(np.prod([cards[labels.index(v)] for v in sep]))
        for k1, (T1, M1) in one.items():
            for k2, (T2, M2) in two.items():
                if any(dict(zip(sp, k1))[v] != dict(zip(tp, k2))[v] for v in sp): continue
                d1, d2 = M1.sum(axis=1), M2.sum(axis=1)
                if c > 2 and d1.sum() / df < thumb: return False
                F = ((1 - d2) / (T2 + 1)) / ((1 - d1) / (T1 + 1))
                for x in range(c):
                    if F[x] < fd.ppf(ea / 2, d1[x], d2[x]) or F[x] > fd.ppf(1 - ea / 2, d1[x], d2[x]): return False
                K, L = np.sqrt(d1 / d2), np.sqrt(d2 / d1)
                for x in range(c):
                    o = [y for y in range(c) if y != x]
                    if np.nansum((K[x] * M2[x, o] - L[x] * M1[x, o]) ** 2 / (M1[x, o] + M2[x, o])) > chi2.ppf(1 - ca, c - 1): return False
    return True
def ask(s, labels, cards, child, parent, sep, ea, ca, thumb, e=None):
    e = e or StructureConstraintBasedEstimator(s, ea, ca, [], thumb)
    return bool(e.complete_test(parent, child, list(sep), cards[labels.index(child)], len(labels), labels.index(parent), labels.index(child)))
'''
