from hypothesis import strategies as st
import json
import os
import numpy as np
import pandas as pd
from .. import gen, ref
from ..core import check, sut, refused


@st.composite
def strategy(draw, tier):
    d = draw(gen.data(max_vars=4, max_card=3, max_trajs=3, max_steps=5))
    n = len(d["cards"])
    kind = draw(st.sampled_from(["memory", "own", "order", "json", "sorter"]))
    case = {"kind": kind, "d": d, "edges": draw(gen.edge_indices(n, 2))}
    if kind == "memory":
        case["variables"] = draw(st.sampled_from(["ok", "none", "empty", "empty with header"]))
        case["imported"] = draw(st.booleans())
        case["rows"] = draw(st.sampled_from(["ok", "single", "partly single"]))
    elif kind == "own":
        case["variables"] = draw(st.sampled_from(["ok", "ok", "none", "empty"]))
        case["samples"] = draw(st.sampled_from(["ok", "none", "empty frame", "empty array", "empty list", "array"]))
    elif kind == "order":
        case["perm"] = list(draw(st.permutations(range(n))))
        case["change"] = draw(st.sampled_from(["permute", "drop", "add", "rename", "none"]))
        case["shared"] = draw(st.booleans())
    elif kind == "json":
        case["damage"] = draw(st.sampled_from(["none", "missing file", "directory", "not json", "truncated", "empty file",
                                               "index high", "index low", "no samples", "no variables",
                                               "no structure", "no time", "no time in one"]))
        case["elements"] = draw(st.integers(1, 3))
        case["cut"] = draw(st.integers(1, 10 ** 6))
        case["over"] = draw(st.integers(0, 5))
    else:
        case["sorter"] = draw(st.sampled_from([None, [], "ok"]))
    return case


def accept(sutkit, imp, d, edges):
    from .c05 import view, same, expected
    with sut("a complete import"):
        got = view(sutkit, imp)
    same(got, expected(d, edges), "accepted import")


def run(case, stats):
    from .. import sutkit
    d, edges, kind = case["d"], case["edges"], case["kind"]
    stats.label(kind)
    fs = sutkit.frames(d)
    v = sutkit.variables_frame(d)
    bad = True
    if kind == "memory":
        if case["rows"] == "single":
            fs = [f.iloc[:1].copy() for f in fs]
        elif case["rows"] == "partly single":
            fs = fs + [fs[0].iloc[:1].copy()]
        variables = {"ok": v, "none": None, "empty": pd.DataFrame(), "empty with header": v.iloc[:0]}[case["variables"]]
        with sut("SampleImporter"):
            imp = sutkit.SampleImporter(trajectory_list=fs, variables=variables,
                                        prior_net_structure=sutkit.edges_frame(d, edges))
            if case["imported"]:
                imp.import_data()
        bad = case["variables"] != "ok" or not case["imported"] or case["rows"] == "single"
        stats.label("variables " + case["variables"], "rows " + case["rows"], "imported %s" % case["imported"])
        if bad:
            with refused("sample path with variables %(variables)s, imported %(imported)s, rows %(rows)s" % case, RuntimeError):
                sutkit.SamplePath(imp)
        else:
            accept(sutkit, imp, d, edges)
    elif kind == "own":
        class Own(sutkit.AbstractImporter):
            def import_data(self):
                self._sorter = self.build_sorter(fs[0])
                self._df_variables = {"ok": v, "none": None, "empty": pd.DataFrame()}[case["variables"]]
                self._df_structure = sutkit.edges_frame(d, edges)
                self.compute_row_delta_in_all_samples_frames(fs)
                full = self._concatenated_samples
                self._concatenated_samples = {"ok": full, "none": None, "empty frame": full.iloc[:0],
                                              "empty array": np.empty((0, full.shape[1])), "empty list": [],
                                              "array": full}[case["samples"]]

            def build_sorter(self, frame):
                return list(frame.columns)[1:]

            def dataset_id(self):
                return 0
        with sut("custom importer"):
            imp = Own("x")
            imp.import_data()
        bad = case["variables"] != "ok" or case["samples"] not in ("ok", "array")
        stats.label("variables " + case["variables"], "samples " + case["samples"])
        if bad:
            with refused("sample path with variables %(variables)s, samples %(samples)s" % case, RuntimeError):
                sutkit.SamplePath(imp)
        else:
            accept(sutkit, imp, d, edges)
    elif kind == "order":
        L, C = list(d["labels"]), list(d["cards"])
        change = case["change"]
        if change == "permute":
            L, C = [L[i] for i in case["perm"]], [C[i] for i in case["perm"]]
        elif change == "drop" and len(L) > 1:
            L, C = L[:-1], C[:-1]
        elif change == "add":
            L, C = L + ["another"], C + [2]
        elif change == "rename":
            L = L[:-1] + ["another"]
        if case["shared"]:
            edges = []
        with sut("import"):
            imp = sutkit.SampleImporter(trajectory_list=fs, variables=pd.DataFrame({"Name": L, "Value": C}),
                                        prior_net_structure=sutkit.edges_frame(d, edges))
            imp.import_data()
        bad = L != d["labels"]
        stats.label("change " + change)
        if bad:
            with sut("SamplePath"):
                sp = sutkit.SamplePath(imp)
                sp.build_trajectories()
            with refused("structure from variables %s for columns %s" % (L, d["labels"]), RuntimeError):
                sp.build_structure()
        else:
            accept(sutkit, imp, d, edges)
    elif kind == "json":
        damage = case["damage"]
        stats.label(damage)
        content = [sutkit.json_dataset(d, edges) for _ in range(case["elements"])]
        at = case["cut"] % case["elements"]
        key = {"no samples": "samples", "no variables": "variables", "no structure": "dyn.str"}.get(damage)
        if key:
            del content[at][key]
        if damage == "no time":
            for tr in content[at]["samples"]:
                for row in tr:
                    del row[d["time"]]
        if damage == "no time in one":
            rows = content[at]["samples"]
            rows = [tr for tr in rows if tr][case["over"] % sum(1 for tr in rows if tr)]
            for row in rows:
                del row[d["time"]]
        text = json.dumps(content)
        if damage == "not json":
            text = "<samples>" + text
        elif damage == "truncated":
            text = text[:1 + case["cut"] % (len(text) - 1)]
        elif damage == "empty file":
            text = ""
        name = "broken.json"
        bad = damage != "none"
        try:
            if damage == "directory":
                os.mkdir(name)
            elif damage != "missing file":
                with open(name, "w") as f:
                    f.write(text)
            if damage in ("missing file", "directory", "not json", "truncated", "empty file"):
                kinds = {"missing file": FileNotFoundError, "directory": OSError}.get(damage, ValueError)
                with refused("JsonImporter on a bad file: " + damage, kinds):
                    sutkit.json_importer(name, d["time"], cims=False)
            else:
                with sut("JsonImporter"):
                    imp = sutkit.json_importer(name, d["time"], cims=False)
                if damage.startswith("index"):
                    k = case["elements"] + case["over"] if damage == "index high" else -case["elements"] - 1 - case["over"]
                    with refused("import_data(%d) of %d elements" % (k, case["elements"]), IndexError):
                        imp.import_data(k)
                elif bad:
                    with refused("import_data of an element with " + damage, (KeyError, ValueError)):
                        imp.import_data(at)
                else:
                    with sut("import_data"):
                        imp.import_data(at)
                    accept(sutkit, imp, d, edges)
        finally:
            if os.path.isdir(name):
                os.rmdir(name)
            elif os.path.exists(name):
                os.remove(name)
    else:
        class Own(sutkit.AbstractImporter):
            def build_sorter(self, frame):
                return list(frame.columns)[1:]

            def dataset_id(self):
                return 0
        imp = Own("x")
        sorter = case["sorter"]
        imp._sorter = list(d["labels"]) if sorter == "ok" else sorter
        bad = sorter != "ok"
        if bad:
            with refused("processing trajectories without the variable order", RuntimeError):
                imp.compute_row_delta_in_all_samples_frames(fs)
        else:
            with sut("processing trajectories"):
                imp.compute_row_delta_in_all_samples_frames(fs)
            check(len(imp.concatenated_samples) == sum(1 for _ in ref.intervals(d)), "number of intervals")
    stats.mark(bad)
