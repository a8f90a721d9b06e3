from hypothesis import strategies as st
import os
import json
import numpy as np
import pandas as pd
from .. import gen, ref
from ..core import check, sut

TIMES = gen.TIME_KEYS + ["S", "TimeS", "AS", "A", "1", "0", "δt", "AST", "Name", "XS"]


CASES = [{"d": d} for d in gen.large_series(2)]


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 15)) == 0:
        return {"d": draw(gen.large())}
    d = draw(gen.data(max_vars=7, max_card=4, big=12, max_trajs=12, max_steps=draw(st.sampled_from([0, 1, 3, 25])),
                      time_keys=TIMES, nonempty=False))
    return {"d": d, "route": draw(st.sampled_from(["sample", "json", "custom", "path"])),
            "index": draw(st.sampled_from(["default", "offset", "dup", "str", "reversed"])),
            "int_times": draw(st.booleans()), "start": draw(st.integers(-1000, 1000)),
            "dtype": draw(st.sampled_from(["int64", "float64", "int8"])),
            "header": draw(st.booleans()),
            # the frames after the first may list the same columns in another order
            "shuffled": draw(st.integers(0, 2 ** 16)) if draw(st.integers(0, 2)) == 0 else None,
            "far": draw(st.sampled_from([0, 0, 0, 2 ** 24 + 1, 16 * 10 ** 8, -2 ** 33])), 
            # the variables asked for by name, possibly only some of them
            "columns": list(draw(st.permutations(range(len(d["cards"])))))[:draw(st.sampled_from([None, None, 1, 2]))]}


def run_large(case, stats):
    from .. import sutkit
    d = case["d"]
    data = gen.arrays(d)
    fs = sutkit.large_frames(d, data)
    with sut("SampleImporter"):
        sp = sutkit.path_of(fs, d)
        t, x = np.asarray(sp.trajectories.times), np.asarray(sp.trajectories.complete_trajectory)
    want_t = np.concatenate([np.diff(t_) for t_, _ in data]) * 2.0 ** -d["unit"]
    want_x = np.concatenate([np.hstack([x_[:-1], x_[1:]]) for _, x_ in data])
    check(t.shape == want_t.shape and x.shape == want_x.shape, "number of intervals", got=(t.shape, x.shape),
          want=want_x.shape)
    bad = np.flatnonzero(t != want_t)
    check(len(bad) == 0, "elapsed time", rows=len(bad), first=bad[:3].tolist(), got=t[bad[:3]].tolist(),
          want=want_t[bad[:3]].tolist())
    bad = np.flatnonzero((x != want_x).any(axis=1))
    check(len(bad) == 0, "states of an interval", rows=len(bad), first=bad[:3].tolist(), got=x[bad[:3]].tolist(),
          want=want_x[bad[:3]].tolist())
    stats.label("large: " + d["large"])
    stats.mark(len(t) > 1)


def run(case, stats):
    from .. import sutkit
    if "large" in case["d"]:
        return run_large(case, stats)
    d = case["d"]
    s = 2.0 ** -d["unit"]
    n = len(d["labels"])
    order = list(range(n))
    fs = []
    for tr in d["trajs"]:
        t = [v * s + case["start"] + case.get("far", 0) for v in tr["t"]]
        if case["int_times"] and d["unit"] == 0:
            t = [int(v) for v in t]
        f = pd.DataFrame({d["time"]: t})
        for j, l in enumerate(d["labels"]):
            f[l] = np.array([x[j] for x in tr["x"]]).astype(case["dtype"])
        if case["route"] != "json":
            m = len(f)
            if case["index"] == "offset":
                f.index = range(100, 100 + m)
            elif case["index"] == "dup":
                f.index = [i // 3 for i in range(m)]
            elif case["index"] == "str":
                f.index = ["r%d" % (i % 5) for i in range(m)]
            elif case["index"] == "reversed":
                f.index = list(range(m))[::-1]
        if fs and case.get("shuffled") is not None:
            # the time stays first: it is found there
            f = f[[d["time"]] + [d["labels"][j] for j in np.random.RandomState(case["shuffled"] + len(fs)).permutation(n)]]
        fs.append(f)
    copies = [f.copy(deep=True) for f in fs]
    rows = list(ref.intervals(d))
    header = None
    if case["header"] and case["route"] in ("sample", "path"):
        order = case["columns"]
        header = [d["labels"][j] for j in order]
    try:
        if case["route"] == "json":
            with open("data.json", "w") as f:
                json.dump([{"dyn.str": [], "variables": [{"Name": l, "Value": c} for l, c in zip(d["labels"], d["cards"])],
                            "samples": [json.loads(f_.to_json(orient="records", double_precision=15)) for f_ in fs]}], f)
            with sut("JsonImporter"):
                imp = sutkit.json_importer("data.json", d["time"], cims=False)
                imp.import_data()
        elif case["route"] == "custom":
            class Own(sutkit.AbstractImporter):
                def import_data(self):
                    self._df_samples_list = fs
                    self._sorter = self.build_sorter(fs[0])
                    self._df_variables = sutkit.variables_frame(d)
                    self.compute_row_delta_in_all_samples_frames(self._df_samples_list)

                def build_sorter(self, frame):
                    return list(frame.columns)[1:]

                def dataset_id(self):
                    return None
            with sut("custom importer"):
                imp = Own("nowhere")
                imp.import_data()
        else:
            with sut("SampleImporter"):
                v = [[d["labels"][j], d["cards"][j]] for j in order]
                imp = sutkit.SampleImporter(trajectory_list=fs, variables=pd.DataFrame(v, columns=["Name", "Value"]))
                imp.import_data(header) if header else imp.import_data()
    finally:
        if os.path.exists("data.json"):
            os.remove("data.json")
    want_t = [dt * s for dt, _, _ in rows]
    want_x = [[a[j] for j in order] + [b[j] for j in order] for _, a, b in rows]
    check(list(imp.sorter) == [d["labels"][j] for j in order], "variables", got=list(imp.sorter))
    if case["route"] == "path" and rows:
        with sut("SamplePath"):
            sp = sutkit.SamplePath(imp)
            sp.build_trajectories()
            sp.build_structure()
            t = list(sp.trajectories.times)
            x = sp.trajectories.complete_trajectory
            first = sp.trajectories.trajectory
            size = sp.trajectories.size()
        check(np.array_equal(first, x[:, :len(order)]), "trajectory is not the first half of the complete trajectory")
        check(size == len(rows), "size", got=size, want=len(rows))
        check(np.issubdtype(x.dtype, np.integer), "states are not integers", dtype=str(x.dtype))
    else:
        arr = imp.concatenated_samples.to_numpy()
        check(arr.shape == (len(rows), 2 * len(order) + 1), "shape of the processed data", got=arr.shape,
              want=(len(rows), 2 * len(order) + 1))
        t, x = list(arr[:, 0]), arr[:, 1:]
    check(len(t) == len(want_t), "number of intervals", got=len(t), want=len(want_t))
    for k in range(len(want_t)):
        check(abs(t[k] - want_t[k]) <= 1e-9 * (1 + abs(want_t[k])), "elapsed time", row=k, got=float(t[k]), want=want_t[k])
        check(list(x[k]) == want_x[k], "states of an interval", row=k, got=list(x[k]), want=want_x[k])
    for f, c in zip(fs, copies):
        check(f.equals(c) and list(f.columns) == list(c.columns), "the frames of the caller were changed")
    lens = [len(t["t"]) for t in d["trajs"]]
    stats.label(case["route"], "trajectories=%d" % min(8, len(lens)), "index " + case["index"],
                "single row" if 1 in lens else "no single row")
    stats.mark(len(lens) > 1 and len(rows) > 1)
