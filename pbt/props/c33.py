from hypothesis import strategies as st
import json
import os
import random
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut
from .c05 import view, expected, in_memory


@st.composite
def strategy(draw, tier):
    time = draw(st.sampled_from(gen.TIME_KEYS))
    sets = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            d = draw(gen.data(min_vars=1, max_vars=5, max_card=4, big=8, max_steps=20, time_keys=[time]))
        else:
            d = draw(gen.sim(min_vars=2, max_vars=4, max_card=3, max_steps=80))
            d["time"] = time
        if time in d["labels"]:
            d["labels"] = [l + "_" for l in d["labels"]]
        sets.append({"d": d, "edges": draw(gen.edge_indices(len(d["cards"]), 2))})
    kind = draw(st.integers(0, 3))
    first = sets[0]
    if kind == 1 and "sim" not in first["d"]:
        # another data set of the same variables: the same states after the same intervals in another order
        sets.append({"d": dict(first["d"], trajs=[{"t": [tr["t"][0] + tr["t"][-1] - t for t in reversed(tr["t"])], "x": tr["x"]}
                                                  for tr in first["d"]["trajs"]]), "edges": first["edges"]})
    elif kind > 1:
        # the same one without its first trajectory or its last rows
        if "sim" not in first["d"]:
            sets.append({"d": dict(first["d"], trajs=first["d"]["trajs"][1:] or [{"t": tr["t"][:2], "x": tr["x"][:2]} for tr in first["d"]["trajs"]]),
                         "edges": first["edges"][:1]})
            if not any(len(tr["t"]) > 1 for tr in sets[-1]["d"]["trajs"]):
                sets.pop()
    k = len(sets)
    small = st.integers(0, 30)
    ops = [st.tuples(st.just("import"), st.integers(0, k - 1)), st.tuples(st.just("import"), st.integers(0, k - 1)),
           st.tuples(st.just("memory"), st.integers(0, k - 1)), st.tuples(st.just("memory"), st.integers(0, k - 1)),
           st.tuples(st.just("again"), small, st.booleans()), st.tuples(st.just("clear"), small, st.integers(0, 2)),
           st.tuples(st.just("caller"), small, st.integers(0, 5)), st.tuples(st.just("remove"), small, small),
           st.tuples(st.just("edge"), small, small, small), st.tuples(st.just("learn"), small, st.integers(0, 3)),
           st.tuples(st.just("estimate"), small, small), st.tuples(st.just("structure"), small)]
    return {"sets": sets, "ops": [["import", 0], ["memory", k - 1]] + draw(st.lists(st.one_of(*ops), min_size=1, max_size=10)),
            "variables": draw(st.sampled_from(["frame", "list", "array", "renamed"])),
            "structure": draw(st.sampled_from(["frame", "list", "array", "tuples"])),
            "cfg": draw(learn.any_learner(iterations=(0, 5, 20))), "seed": draw(st.integers(0, 2 ** 16))}


class Path:
    """A sample path of the code under test and what it has to be."""

    def __init__(self, sutkit, imp, d, edges, mine=None):
        self.imp, self.d, self.mine = imp, d, mine
        self.sp = sutkit.SamplePath(imp)
        self.sp.build_trajectories()
        self.sp.build_structure()
        self.want = expected(d, edges)
        self.left = list(range(len(d["labels"])))
        self.prior = list(edges)
        self.edges = {(i, j) for i, j in edges}
        self.dead = False

    def look(self, what):
        s, d = self.sp.structure, self.d
        with sut("reading the sample path"):
            got = {"times": [float(t) for t in self.sp.trajectories.times],
                   "rows": self.sp.trajectories.complete_trajectory.tolist(),
                   "size": int(self.sp.trajectories.size()), "labels": list(s.nodes_labels),
                   "cards": [int(v) for v in s.nodes_values], "indexes": [int(v) for v in s.nodes_indexes],
                   "edges": sorted((str(a), str(b)) for a, b in s.edges), "prior": bool(self.sp.has_prior_net_structure),
                   "variables": int(self.sp.total_variables_count)}
        L = d["labels"]
        want = {"times": self.want["times"], "rows": self.want["rows"], "size": len(self.want["times"]),
                "labels": [L[i] for i in self.left], "cards": [d["cards"][i] for i in self.left], "indexes": self.left,
                "edges": sorted((L[a], L[b]) for a, b in self.edges), "prior": bool(self.edges), "variables": len(L)}
        for k in want:
            check(got[k] == want[k], "%s of a sample path changed after %s" % (k, what), got=got[k], want=want[k])

    def statistics(self, sutkit, rng, what):
        d, L = self.d, self.d["labels"]
        child = rng.choice(self.left)
        others = [i for i in self.left if i != child and (i, child) not in self.edges]
        ps = sorted(rng.sample(others, rng.randint(0, min(2, len(others)))) + [a for a, b in self.edges if b == child])
        if np.prod([d["cards"][p] for p in ps]) > 300:
            return
        with sut("estimating after " + what):
            g = sutkit.NetworkGraph(self.sp.structure)
            g.add_edges([(L[p], L[child]) for p in ps if (p, child) not in self.edges])
            g.fast_init(L[child])
            p = sutkit.ParametersEstimator(self.sp.trajectories, g)
            p.fast_init(L[child])
            sofc = p.compute_parameters_for_node(L[child])
        combs, cims = sutkit.by_comb(sofc, len(ps))
        for comb, (T, M) in ref.stats(d, child, ps).items():
            c = cims[combs.index(comb)]
            check(np.allclose(np.asarray(c.state_residence_times, dtype=float), T, rtol=1e-9, atol=1e-9) and
                  np.asarray(c.state_transition_matrix).tolist() == [list(r) for r in M],
                  "statistics of a family changed after " + what, child=L[child], parents=[L[p] for p in ps])


def spoil(mine, what):
    """The caller goes on using what he passed."""
    frames, variables, structure = mine
    if what < 3:
        for f in frames:
            if what == 0:
                f.iloc[:, 1:] = 0
            elif what == 1:
                f.iloc[:, 0] = np.arange(len(f))
            else:
                f.drop(f.index[1:], inplace=True)
    elif what < 5:
        v = variables
        if isinstance(v, list):
            v[0][1] = 99
        elif isinstance(v, np.ndarray):
            v[:, 1] = 99
        elif what == 3:
            v.iloc[:, 1] = 99
        else:
            v.iloc[0, 1] = 99
    elif isinstance(structure, list):
        del structure[:]
    elif structure is not None and len(structure):
        if isinstance(structure, np.ndarray):
            structure[:] = structure[:, ::-1].copy()
        else:
            structure.iloc[0, 0] = structure.iloc[0, 1]


def run(case, stats):
    from .. import sutkit
    sets = [dict(s, d={k: v for k, v in gen.expand(s["d"]).items() if k != "rates"}) for s in case["sets"]]
    rng = random.Random(case["seed"])
    with open("c33.json", "w") as f:
        json.dump([sutkit.json_dataset(s["d"], s["edges"]) for s in sets], f)
    with sut("JsonImporter"):
        shared = sutkit.json_importer("c33.json", sets[0]["d"]["time"], cims=False)
    os.remove("c33.json")
    alive = True
    paths = []
    last = {}
    others = 0
    for op in case["ops"]:
        what = op[0]
        if op[0] == "import":
            if not alive:
                continue
            s = sets[op[1]]
            with sut("import_data(%d)" % op[1]):
                shared.import_data(op[1])
                paths.append(Path(sutkit, shared, s["d"], s["edges"]))
        elif op[0] == "memory":
            s = sets[op[1]]
            mine = in_memory(sutkit, case, s["d"], s["edges"])
            with sut("SampleImporter"):
                imp = sutkit.SampleImporter(trajectory_list=mine[0], variables=mine[1], prior_net_structure=mine[2])
                imp.import_data()
                paths.append(Path(sutkit, imp, s["d"], s["edges"], mine))
        else:
            p = paths[op[1] % len(paths)]
            if op[0] == "again":
                if p.dead or (p.imp is shared and not alive):
                    continue
                with sut("importing again"):
                    k = len(sets) - 1
                    p.imp.import_data(k) if p.imp is shared else p.imp.import_data()
                    last[id(p.imp)] = p if p.imp is not shared else None
                    if op[2]:
                        if p.imp is shared:
                            paths.append(Path(sutkit, shared, sets[k]["d"], sets[k]["edges"]))
                        else:
                            s = [s for s in sets if s["d"] is p.d][0]
                            paths.append(Path(sutkit, p.imp, s["d"], s["edges"], p.mine))
                what = "importing again"
            elif op[0] == "clear":
                with sut("clearing"):
                    if op[2] == 0:
                        p.sp.clear_memory()
                        if p.imp is shared:
                            alive = False
                    elif op[2] == 1:
                        p.imp.clear_concatenated_frame()
                    elif p.imp is shared:
                        shared.clear_data_frame_list()
                what = ("clear_memory", "clear_concatenated_frame", "clear_data_frame_list")[op[2]]
            elif op[0] == "caller":
                if p.mine is None:
                    continue
                spoil(p.mine, op[2])
                for q in paths:
                    q.dead = q.dead or q.mine is p.mine
                what = "a change of the caller's " + ("frames", "frames", "frames", "variables", "variables", "edges")[op[2]]
            elif op[0] == "remove":
                if len(p.left) < 2:
                    continue
                v = p.left[op[2] % len(p.left)]
                with sut("remove_node"):
                    p.sp.structure.remove_node(p.d["labels"][v])
                p.left.remove(v)
                p.edges = {e for e in p.edges if v not in e}
                what = "a variable was removed from another or the same one"
            elif op[0] == "edge":
                a, b = p.left[op[2] % len(p.left)], p.left[op[3] % len(p.left)]
                if a == b:
                    continue
                L = p.d["labels"]
                with sut("editing an edge"):
                    if (a, b) in p.edges:
                        p.sp.structure.remove_edge((L[a], L[b]))
                    else:
                        p.sp.structure.add_edge((L[a], L[b]))
                p.edges ^= {(a, b)}
                what = "an edge of another or the same one was edited"
            elif op[0] == "learn":
                with sut("learning"):
                    learn.estimate(learn.estimator(p.sp, case["cfg"]), case["cfg"], case["seed"])
            elif op[0] == "structure":
                if p.dead or p is not last.get(id(p.imp)):
                    continue
                with sut("build_structure"):
                    p.sp.build_structure()
                p.left = list(range(len(p.d["labels"])))
                p.edges = {(i, j) for i, j in p.prior}
                what = "the structure was built again"
            elif op[0] == "estimate":
                p.statistics(sutkit, rng, "an estimate")
            others += 1
        if op[0] in ("import", "memory") or (op[0] == "again" and op[2]):
            last[id(paths[-1].imp)] = paths[-1]
        for q in paths:
            q.look(what)
        stats.label(op[0])
    for q in paths:
        q.statistics(sutkit, rng, "all of it")
    # each of them learns what a sample path with the same contents learns
    q = rng.choice(paths)
    if len(q.left) == len(q.d["labels"]):
        with sut("learning at the end"):
            got = learn.pairs(learn.estimate(learn.estimator(q.sp, case["cfg"]), case["cfg"], case["seed"]))
            fresh = sutkit.sample_path(q.d, [list(e) for e in sorted(q.edges)] or None)
            want = learn.pairs(learn.estimate(learn.estimator(fresh, case["cfg"]), case["cfg"], case["seed"]))
        check(got == want, "another structure than from a new sample path", got=got, want=want)
    stats.label("paths=%d" % len(paths), "data sets=%d" % len(sets))
    stats.mark(len(paths) > 1 and others > 0)
