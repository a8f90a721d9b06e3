from hypothesis import strategies as st
import json
import os
import numpy as np
import random
from .. import gen, nets
from ..core import check, sut
from .c12 import read_key


@st.composite
def strategy(draw, tier):
    nt = draw(nets.net(max_vars=7, max_card=4, big=13, max_parents=6, labels=nets.plain_labels, max_matrices=700))
    n = len(nt["cards"])
    return {"net": nt, "route": draw(st.sampled_from(["exporter", "file", "file"])), "order": draw(st.integers(0, 2 ** 16)),
            "keys": draw(st.sampled_from([None, None, "sorted", "reversed", "any"])),
            "key_order": draw(st.sampled_from(["variables", "edges"])), "elements": draw(st.integers(1, 2)),
            "length": draw(st.integers(5, 80)), "seeds": draw(st.lists(st.integers(0, 2 ** 31 - 1), min_size=1, max_size=2)),
            "end": draw(st.booleans()), "shuffle_memory": draw(st.booleans())}


def document(nt, rates, edges, rng, key_order):
    L, C = nt["labels"], nt["cards"]
    edges = [edges[i] for i in rng.permutation(len(edges))]
    cims = {}
    for j in rng.permutation(len(L)):
        ps, table = rates[j]
        named = ps if key_order == "variables" else [i for i, k in edges if k == j]
        entry = {}
        combs = sorted(table)
        for c in rng.permutation(len(combs)):
            comb = dict(zip(ps, combs[c]))
            key = ",".join("%s=%d" % (L[p], comb[p]) for p in named) or L[j]
            m = table[combs[c]]
            entry[key] = [{str(i): (int(v) if float(v).is_integer() else float(v)) for i, v in enumerate(r)} for r in m]
        cims[L[j]] = entry
    return {"dyn.str": [{"From": L[i], "To": L[j]} for i, j in edges],
            "variables": [{"Name": l, "Value": c} for l, c in zip(L, C)], "dyn.cims": cims,
            "samples": [[{"Time": 0.0, **{l: 0 for l in L}}, {"Time": 1.0, **{l: -1 for l in L}}]]}


def run(case, stats):
    from .. import sutkit
    import pandas as pd
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    rng = np.random.RandomState(case["order"])
    if case["shuffle_memory"] and nt["make"] == "own" and len(dyn_str):
        dyn_str = dyn_str.iloc[rng.permutation(len(dyn_str))].reset_index(drop=True)
    name = "net.json"
    try:
        if case["route"] == "exporter":
            with sut("JsonExporter"):
                exp = sutkit.JsonExporter(variables, dyn_str, cims)
                exp.add_trajectory(pd.DataFrame({"Time": [0.0, 1.0], **{l: [0, -1] for l in L}}))
                exp.out_file(name)
            at = 0
        else:
            doc = document(nt, rates, edges, rng, case["key_order"])
            at = case["elements"] - 1
            other = {"dyn.str": [], "variables": [{"Name": "q", "Value": 2}], "dyn.cims": {"q": {"q": [
                {"0": -1.0, "1": 1.0}, {"0": 1.0, "1": -1.0}]}},
                "samples": [[{"Time": 0, "q": 0}, {"Time": 1, "q": -1}]]}
            with open(name, "w") as f:
                json.dump([other] * at + [doc], f)
        if case.get("keys"):
            with open(name) as f:
                content = sutkit.rekeyed(json.load(f), case["keys"], case["order"] % 1000)
            with open(name, "w") as f:
                json.dump(content, f)
        with sut("JsonImporter"):
            imp = sutkit.json_importer(name, "Time")
            imp.import_data(at)
            raw = imp.read_json_file()
            listed = imp.import_sampled_cims(raw, at, "dyn.cims")
    finally:
        if os.path.exists(name):
            os.remove(name)
    for j, l in enumerate(L):
        ps, table = rates[j]
        keys = [read_key(k, [L[p] for p in ps], set(table)) for k in raw[at]["dyn.cims"][l]]
        check(len(listed[l]) == len(keys) and all(np.allclose(np.asarray(m, dtype=float), table[k], rtol=0, atol=1e-9)
                                                  for m, k in zip(listed[l], keys)), "imported matrices of " + l)
    fast = nets.fastest(rates)
    with sut("TrajectoryGenerator in memory"):
        one = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    with sut("TrajectoryGenerator from a file"):
        two = sutkit.TrajectoryGenerator(importer=imp)
    for seed in case["seeds"]:
        got = []
        for tg, what in ((one, "sampling from the network in memory"), (two, "sampling from the imported network")):
            np.random.seed(seed % 2 ** 32)
            random.seed(seed)
            with sut(what):
                got.append(tg.CTBN_Sample(t_end=case["length"] / fast) if case["end"] else
                           tg.CTBN_Sample(max_tr=case["length"]))
        nets.inspect(got[0], L, C, rates, "in memory")
        nets.inspect(got[1], L, C, rates, "imported")
        check(list(got[0].columns) == list(got[1].columns), "columns")
        a, b = got[0].to_numpy(dtype=float), got[1].to_numpy(dtype=float)
        check(a.shape == b.shape, "number of rows", memory=a.shape, imported=b.shape)
        bad = [k for k in range(len(a)) if not (a[k] == b[k]).all()]
        check(not bad, "the trajectories differ", row=bad[:1], memory=a[bad[0]].tolist() if bad else None,
              imported=b[bad[0]].tolist() if bad else None)
    biggest = max(len(p) for p, _ in rates)
    stats.label(case["route"], nt["make"], "most parents=%d" % biggest, "states=%d" % max(C))
    stats.mark(biggest > 0)
