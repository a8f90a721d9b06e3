from hypothesis import strategies as st
import json
import locale
import os
import numpy as np
import pandas as pd
from .. import gen, ref
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    time = draw(st.sampled_from(gen.TIME_KEYS))
    sets = []
    for _ in range(draw(st.integers(1, 4))):
        d = draw(gen.data(max_vars=5, max_card=4, big=12, max_trajs=5, max_steps=12, time_keys=[time]))
        if time in d["labels"]:
            d["labels"] = [l + "_" for l in d["labels"]]
        sets.append({"d": d, "edges": draw(gen.edge_indices(len(d["cards"]), 3))})
    k = len(sets)
    return {"sets": sets, "as_object": draw(st.booleans()) and k == 1,
            "indices": draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=5)),
            "variables": draw(st.sampled_from(["frame", "list", "array", "indexed", "renamed"])),
            "structure": draw(st.sampled_from(["frame", "list", "array", "indexed", "tuples"])),
            "at": [draw(st.integers(0, 9)) for _ in range(k)],
            "order": draw(st.sampled_from([None, None, "sorted", "reversed", "any"])),
            "keys": draw(st.sampled_from([None, None, {"samples": "data", "dyn.str": "arcs", "variables": "nodes", "dyn.cims": "cims"},
                                          {"samples": "variables", "dyn.str": "samples", "variables": "dyn.str",
                                           "dyn.cims": "x"}])),
            "name": draw(st.sampled_from(["Name", "Name", "label", "a"])), "value": draw(st.sampled_from(["Value", "Value", "b", "0"])),
            "text": draw(st.sampled_from([{}, {}, {"ensure_ascii": False}, {"indent": 2}, {"separators": [",", ":"]}])),
            "again": draw(st.integers(0, 2)), "default_index": draw(st.booleans())}


def view(sutkit, imp):
    sp = sutkit.SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    s = sp.structure
    return {"times": [float(t) for t in sp.trajectories.times], "rows": sp.trajectories.complete_trajectory.tolist(),
            "labels": list(s.nodes_labels), "cards": [v if isinstance(v, str) else int(v) for v in s.nodes_values],
            "indexes": [int(v) for v in s.nodes_indexes], "edges": sorted((str(a), str(b)) for a, b in s.edges),
            "total": (int(s.total_variables_number), int(sp.total_variables_count)),
            "prior": bool(sp.has_prior_net_structure)}


def expected(d, edges):
    s = 2.0 ** -d["unit"]
    rows = list(ref.intervals(d))
    n = len(d["cards"])
    return {"times": [dt * s for dt, _, _ in rows], "rows": [list(a) + list(b) for _, a, b in rows],
            "labels": d["labels"], "cards": d["cards"], "indexes": list(range(n)),
            "edges": sorted((d["labels"][i], d["labels"][j]) for i, j in edges), "total": (n, n), "prior": bool(edges)}


def same(got, want, what):
    for key in want:
        check(got[key] == want[key], "%s: %s differ" % (what, key), got=got[key], want=want[key])


def in_memory(sutkit, case, d, edges):
    v = [[l, c] for l, c in zip(d["labels"], d["cards"])]
    kind = case["variables"]
    if kind == "list":
        variables = v
    elif kind == "array":
        variables = np.array(v, dtype=object)
    else:
        variables = pd.DataFrame(v, columns=["Name", "Value"] if kind != "renamed" else ["label", "states"])
        if kind == "indexed":
            variables.index = [7 * i + 3 for i in range(len(v))]
    e = [[d["labels"][i], d["labels"][j]] for i, j in edges]
    kind = case["structure"]
    if kind == "list":
        structure = e
    elif kind == "tuples":
        structure = [tuple(x) for x in e] if e else None
    elif kind == "array":
        structure = np.array(e, dtype=object).reshape(-1, 2)
    else:
        structure = pd.DataFrame(e, columns=["From", "To"])
        if kind == "indexed":
            structure.index = [5 * i for i in range(len(e))]
    return sutkit.frames(d), variables, structure


def run(case, stats):
    from .. import sutkit
    sets = case["sets"]
    content = [sutkit.json_dataset(s["d"], s["edges"]) for s in sets]
    time = sets[0]["d"]["time"]
    keys = case.get("keys") or sutkit.KEYS
    name = case.get("name", "Name")
    for c in content:
        c["variables"] = [{name: v["Name"], case.get("value", "Value"): v["Value"]} for v in c["variables"]]
    content = [{keys[k]: v for k, v in c.items()} for c in content]
    if case.get("order"):
        content = sutkit.rekeyed(content, case["order"])
        # the first observation lists the variables in their order, with the time anywhere
        for x, c, at in zip(sets, content, case["at"]):
            first = c[keys["samples"]][0]
            if first:
                names = list(x["d"]["labels"])
                names.insert(at % (len(names) + 1), time)
                first[0] = {k: first[0][k] for k in names}
    style = dict(case.get("text") or {})
    if "separators" in style:
        style["separators"] = tuple(style["separators"])
    with open("sets.json", "w", encoding="utf-8") as f:
        json.dump(content[0] if case["as_object"] else content, f,
                  **(style if locale.getpreferredencoding(False).lower().replace("-", "") == "utf8" else {}))
    try:
        with sut("JsonImporter"):
            imp = sutkit.json_importer("sets.json", time, cims=False, keys=keys, name=name)
        for k in case["indices"]:
            d, edges = sets[k]["d"], sets[k]["edges"]
            with sut("import_data(%d)" % k):
                if k == 0 and case["default_index"]:
                    imp.import_data()
                else:
                    imp.import_data(k)
                got = view(sutkit, imp)
            same(got, expected(d, edges), "JSON element %d" % k)
            check(imp.dataset_id() == k, "data set id", got=imp.dataset_id(), want=k)
    finally:
        os.remove("sets.json")
    k = case["indices"][-1]
    d, edges = sets[k]["d"], sets[k]["edges"]
    frames, variables, structure = in_memory(sutkit, case, d, edges)
    keep = ([f.copy(deep=True) for f in frames], _copy(variables), _copy(structure))
    with sut("SampleImporter"):
        imp = sutkit.SampleImporter(trajectory_list=frames, variables=variables, prior_net_structure=structure)
        imp.import_data()
        for _ in range(case["again"]):
            imp.import_data()
        got = view(sutkit, imp)
    same(got, expected(d, edges), "in-memory data")
    with sut("importing again after the sample path was built"):
        imp.import_data()
        got = view(sutkit, imp)
    same(got, expected(d, edges), "in-memory data imported again")
    check(len(frames) == len(keep[0]) and all(a.equals(b) for a, b in zip(frames, keep[0])), "the caller's frames changed")
    check(_eq(variables, keep[1]) and _eq(structure, keep[2]), "the caller's variables or edges changed")

    class Own(sutkit.AbstractImporter):
        def __init__(self, path):
            self._df_samples_list = None
            super().__init__(path)

        def import_data(self):
            self._df_samples_list = sutkit.frames(d)
            self._sorter = self.build_sorter(self._df_samples_list[0])
            self._df_variables = sutkit.variables_frame(d)
            if edges:
                self._df_structure = sutkit.edges_frame(d, edges)
            self.compute_row_delta_in_all_samples_frames(self._df_samples_list)

        def build_sorter(self, frame):
            return list(frame.columns)[1:]

        def dataset_id(self):
            pass
    with sut("custom importer"):
        imp = Own("x")
        imp.import_data()
        for _ in range(case["again"]):
            imp.import_data()
        got = view(sutkit, imp)
    same(got, expected(d, edges), "custom importer")
    stats.label("keys %s" % case.get("order"), "elements=%d" % len(sets), "imports=%d" % len(case["indices"]), "variables " + case["variables"],
                "structure " + case["structure"])
    stats.mark(len(set(case["indices"])) > 1 or (len(d["trajs"]) > 1 and bool(edges)))


def _copy(x):
    import copy
    return copy.deepcopy(x)


def _eq(a, b):
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and a.equals(b) and list(a.columns) == list(b.columns)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b
