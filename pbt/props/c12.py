from hypothesis import strategies as st
import itertools
import json
import os
import numpy as np
import pandas as pd
from .. import gen, nets
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    nt = draw(nets.net(max_vars=6, max_card=4, big=12, max_parents=5, labels=nets.plain_labels))
    nt["strength"] = 1
    n = len(nt["cards"])
    k = draw(st.integers(1, 5))
    return {"net": nt, "trajs": [draw(gen.trajectory(nt["cards"], 15)) for _ in range(k)],
            "unit": draw(st.sampled_from([0, 4, 6])), "sampled": draw(st.integers(0, 2)),
            "shuffle": list(draw(st.permutations(range(n)))), "late": draw(st.integers(0, 2)),
            "before": draw(st.sampled_from([0, 0, 1])), "dtype": draw(st.sampled_from(["int64", "float64", "int8"]))}


def read_key(key, parents, combs):
    """The parent states a key names, as the only combination it can mean."""
    if not parents:
        return ()
    named = [part.rsplit("=", 1) for part in key.split(",")]
    check(all(len(p) == 2 for p in named) and sorted(p for p, _ in named) == sorted(parents),
          "a key does not name the parents", key=key, parents=parents)
    states = dict(named)
    comb = tuple(int(states[p]) for p in parents)
    check(comb in combs, "a key names no combination", key=key, parents=parents)
    return comb


def matrices(entry, parents, combs, what):
    """{combination: matrix} of one variable of the file."""
    out = {}
    for key, rows in entry.items():
        comb = read_key(key, parents, combs)
        check(comb not in out, what + ": a combination appears twice", key=key)
        out[comb] = pd.DataFrame(rows)[[str(i) for i in range(len(rows))]].to_numpy(dtype=float)
    check(sorted(out) == sorted(combs), what + ": combinations in the file", got=sorted(out), want=sorted(combs))
    return out


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    n = len(L)
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    if nt["make"] == "own":
        # edges in another order
        order = sorted(range(len(edges)), key=lambda e: (case["shuffle"][e % n], e))
        dyn_str = dyn_str.iloc[order].reset_index(drop=True)
    s = 2.0 ** -case["unit"]
    frames = []
    for tr in case["trajs"]:
        f = {"Time": [t * s for t in tr["t"]]}
        for j, l in enumerate(L):
            f[l] = np.array([x[j] for x in tr["x"]]).astype(case["dtype"])
        frames.append(pd.DataFrame(f))
    np.random.seed(nt["seed"] % 2 ** 31)
    for _ in range(case["sampled"]):
        with sut("CTBN_Sample"):
            frames.append(sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
                          .CTBN_Sample(max_tr=12))
    if all(len(f) < 2 for f in frames):
        frames[0] = pd.DataFrame({"Time": [0.0, 1.5], **{l: [0, -1] for l in L}})
    keep = [f.copy(deep=True) for f in frames]
    name = "network.json"
    if case["before"]:
        # a file of that name exists, and is longer
        with open(name, "w") as f:
            json.dump(["old"] * 200000, f)
    try:
        with sut("JsonExporter"):
            exp = sutkit.JsonExporter(variables, dyn_str, cims)
            late = min(case["late"], len(frames) - 1)
            for f in frames[:len(frames) - late]:
                exp.add_trajectory(f)
            exp.out_file(name)
            if late:
                for f in frames[len(frames) - late:]:
                    exp.add_trajectory(f)
                exp.out_file(name)
        with sut("JsonImporter"):
            imp = sutkit.json_importer(name, "Time")
            imp.import_data(0)
        with open(name) as f:
            raw = json.load(f)
        raw = raw[0] if isinstance(raw, list) else raw
        v = imp.variables
        check([str(a) for a in v.iloc[:, 0]] == L and [int(a) for a in v.iloc[:, 1]] == C, "variables",
              got=v.values.tolist())
        e = imp.structure
        want_edges = {(L[i], L[j]) for i, j in edges}
        got_edges = [] if e is None or e.empty else list(zip(e["From"], e["To"]))
        check(len(got_edges) == len(want_edges) and set(got_edges) == want_edges, "edges", got=got_edges, want=want_edges)
        with sut("sample path"):
            sp = sutkit.SamplePath(imp)
            sp.build_trajectories()
            sp.build_structure()
        times, rows = [], []
        for f in keep:
            t = f["Time"].tolist()
            x = f[L].to_numpy(dtype=float).astype(int).tolist()
            times += [b - a for a, b in zip(t, t[1:])]
            rows += [a + b for a, b in zip(x, x[1:])]
        got_t = np.asarray(sp.trajectories.times, dtype=float)
        check(len(got_t) == len(times) and np.allclose(got_t, times, rtol=0, atol=1e-7), "times of the trajectories",
              got=got_t.tolist()[:10], want=times[:10])
        check(np.asarray(sp.trajectories.complete_trajectory).tolist() == rows, "states of the trajectories")
        check(len(raw["samples"]) == len(frames), "number of trajectories", got=len(raw["samples"]), want=len(frames))
        for k, (f, tr) in enumerate(zip(keep, raw["samples"])):
            check(len(tr) == len(f), "rows of trajectory %d" % k, got=len(tr), want=len(f))
            for a, r in zip(f.to_dict("records"), tr):
                check(set(a) == set(r) and all(abs(float(a[c]) - float(r[c])) < 1e-7 for c in a), "row of trajectory %d" % k,
                      got=r, want=a)
        check(sorted(raw["dyn.cims"]) == sorted(L), "variables with matrices", got=sorted(raw["dyn.cims"]))
        with sut("import_sampled_cims"):
            again = imp.import_sampled_cims(imp.read_json_file(), 0, "dyn.cims")
        biggest = 0
        for j, l in enumerate(L):
            ps, table = rates[j]
            parents = [L[p] for p in ps]
            got = matrices(raw["dyn.cims"][l], parents, set(table), "matrices of " + l)
            for comb, m in table.items():
                check(got[comb].shape == m.shape and np.allclose(got[comb], m, rtol=0, atol=1e-9), "matrix of " + l,
                      parents=parents, comb=comb, got=got[comb].tolist(), want=m.tolist())
            keys = [read_key(key, parents, set(table)) for key in raw["dyn.cims"][l]]
            check(len(again[l]) == len(keys) and all(np.allclose(np.asarray(m, dtype=float), table[c], rtol=0, atol=1e-9)
                                                     for m, c in zip(again[l], keys)), "imported matrices of " + l)
            biggest = max(biggest, len(ps))
        check(all(a.equals(b) for a, b in zip(frames, keep)), "the exporter changed a trajectory")
    finally:
        if os.path.exists(name):
            os.remove(name)
    stats.label(nt["make"], "most parents=%d" % biggest, "trajectories=%d" % len(frames), "no edges" if not edges else "edges")
    stats.mark(biggest > 0)
