from hypothesis import strategies as st
import json
import os
import numpy as np
from .. import gen, nets, learn, threads
from ..core import check, sut, Violation, Discard
from . import c16


@st.composite
def strategy(draw, tier):
    k = draw(st.sampled_from([2, 2, 2, 3]))
    shared = draw(st.integers(0, 2)) == 0
    kinds = ["family", "family", "score", "test", "test"] + ([] if shared else ["learn", "learn", "search", "report", "again", "edit"])
    jobs = []
    first = None
    # all of them do the same thing at about the same time
    duel = draw(st.sampled_from(kinds + ([] if shared else ["net"] * 3))) if draw(st.integers(0, 2)) == 1 else None
    for i in range(k):
        if first is None or not shared:
            same = first is not None and draw(st.booleans())
            d = draw(learn.small_data(min_vars=2, max_vars=4, max_card=3)) if not same else None
            # the same variables with other data, or other variables
            if same:
                d = {k: v for k, v in first.items() if k in ("labels", "cards", "time", "unit")}
                d["sim2"] = draw(st.integers(0, 2 ** 16))
        first = first or d
        n = len(d["labels"])
        ops = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2 ** 16)), min_size=1, max_size=4))
        if duel:
            ops = [] if duel == "net" else [(duel, draw(st.integers(0, 2 ** 16))) for _ in range(draw(st.integers(1, 3)))]
        # a job apart from data: sampling from a network, exporting it and reading it back
        net = draw(nets.net(max_vars=3, max_card=3, max_parents=2, labels=nets.plain_labels)) if draw(st.integers(0, 3)) == 0 or duel == "net" else None
        if net:
            net["make"] = "own"
            net["times"] = 6 if duel == "net" else 1
        jobs.append({"d": d, "prior": draw(gen.edge_indices(n, 2)) if draw(st.booleans()) and not shared else [],
                     "known": draw(learn.known(n, 2)) if draw(st.booleans()) else [], "ops": [list(o) for o in ops],
                     "route": draw(st.sampled_from(["memory", "json"])), "cfg": draw(learn.ctpc()), "search": draw(learn.score(iterations=(0, 5, 20))),
                     "net": net})
    return {"jobs": jobs, "shared": shared, "seed": draw(st.integers(0, 2 ** 31)), "mean": draw(st.sampled_from([1, 2, 4] if duel else [2, 10, 40, 200]))}


def plain(d):
    if "sim2" in d:
        rng = np.random.RandomState(d["sim2"])
        n, rows = len(d["labels"]), 40
        x = [[int(rng.randint(c)) for c in d["cards"]] for _ in range(rows)]
        t = [int(v) for v in np.cumsum(rng.randint(0, 9, rows))]
        return {"labels": d["labels"], "cards": d["cards"], "time": d["time"], "unit": d["unit"],
                "trajs": [{"t": t, "x": x[:-1] + [[-1] * n]}]}
    return {k: v for k, v in gen.expand(d).items() if k != "rates"}


def build(job, d, name):
    from .. import sutkit
    if job["route"] == "memory":
        return sutkit.sample_path(d, job["prior"] or None)
    # the same name in a folder of its own
    os.makedirs(name + ".d", exist_ok=True)
    file = os.path.join(name + ".d", "data.json")
    with open(file, "w") as f:
        json.dump([sutkit.json_dataset(d, job["prior"])], f)
    imp = sutkit.json_importer(file, d["time"], cims=False)
    imp.import_data(0)
    os.remove(file)
    os.rmdir(name + ".d")
    s = sutkit.SamplePath(imp)
    s.build_trajectories()
    s.build_structure()
    return s


def statistics(c):
    return [np.asarray(c.p_combs).tolist()] + [[np.asarray(m.state_residence_times, dtype=float).tolist(),
                                                np.asarray(m.state_transition_matrix).astype(int).tolist(),
                                                np.asarray(m.cim, dtype=float).tolist()] for m in c.actual_cims]


def work(job, d, name, s=None):
    """Everything one job does; all of it is decided by the data (and checked here where it is random)."""
    from .. import sutkit
    L = d["labels"]
    n = len(L)
    out = []
    if s is None:
        s = build(job, d, name)
        out.append([s.trajectories.times.tolist(), s.trajectories.complete_trajectory.tolist(), list(s.structure.nodes_labels),
                    [int(v) for v in s.structure.nodes_values], sorted(map(list, s.structure.edges))])
    known = learn.edges_arg(d, job["known"])
    ctpc = learn.estimator(s, job["cfg"], known)
    scorer = learn.estimator(s, job["search"], known)
    learned = False
    for op, seed in job["ops"]:
        rng = np.random.RandomState(seed)
        child = int(rng.randint(n))
        others = [i for i in rng.permutation(n) if i != child][:int(rng.randint(1, 4))]
        parents = [int(i) for i in others]
        if op == "family":
            out.append(statistics(sutkit.family_cims(s, d, child, parents)))
        elif op == "score":
            out.append(float(scorer.get_score_from_graph(sutkit.family_graph(d, child, parents), L[child])))
        elif op == "test":
            out.append(c16.ask(ctpc, s, d, parents[0], child, parents[1:]))
        elif op == "learn":
            out.append(sorted(learn.pairs(ctpc.estimate_structure(disable_multiprocessing=True))))
            learned = True
        elif op == "search":
            got = learn.pairs(scorer.estimate_structure(disable_multiprocessing=True, **learn.score_args(job["search"])))
            check(set(known) <= got, "a known edge is missing", known=known, got=got)
            check(all(a in L and b in L and a != b for a, b in got), "not an edge of the variables", got=got)
            m = job["search"]["max_parents"]
            for l in L if m is not None else ():
                check(sum(b == l for _, b in got) <= max(m, sum(b == l for _, b in known)), "too many parents", got=got, limit=m)
        elif op == "report" and learned:
            file = name + "_" + str(seed)
            ctpc.save_results(file)
            with open(file) as f:
                saved = json.load(f)
            os.remove(file)
            out.append([ctpc.adjacency_matrix().tolist(), sorted(map(list, ctpc.spurious_edges())),
                        sorted(v["id"] for v in saved["nodes"]), sorted([e["source"], e["target"]] for e in saved["links"])])
        elif op == "again":
            other = build(job, d, name)
            out.append(other.trajectories.complete_trajectory.tolist())
        elif op == "edit":
            other = sutkit.Structure(list(L), np.arange(n), np.array(d["cards"]), [], n)
            g = sutkit.NetworkGraph(other)
            g.add_nodes(L)
            g.add_edges([(L[p], L[child]) for p in parents])
            g.fast_init(L[child])
            out.append([g.get_parents_by_id(L[child]), np.asarray(g.p_combs).tolist(), g.time_filtering.tolist()])
            g.remove_node(L[parents[0]])
            out.append([list(other.nodes_labels), sorted(map(list, g.edges))])
    if job["net"]:
        nt = job["net"]
        variables, dyn_str, cims, rates, _ = nets.build(nt)
        e = sutkit.JsonExporter(variables, dyn_str, cims)
        tr = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims).CTBN_Sample(max_tr=8)
        nets.inspect(tr, nt["labels"], nt["cards"], rates)
        e.add_trajectory(tr)
        for k in range(nt["times"]):
            file = name + "_net%d" % k
            e.out_file(file)
            with open(file) as f:
                whole = json.load(f)
            whole = whole[0] if isinstance(whole, list) else whole
            os.remove(file)
            check(len(whole["samples"]) == 1 and len(whole["samples"][0]) == len(tr), "exported trajectory", got=whole["samples"])
            out.append([whole["dyn.cims"], whole["variables"], sorted(map(str, whole["dyn.str"]))])
    out.append([sorted(map(list, s.structure.edges)), list(s.structure.nodes_labels)])
    return out


def run(case, stats):
    from .. import sutkit
    ds = [plain(j["d"]) for j in case["jobs"]]
    shared = None
    if case["shared"]:
        with sut("import"):
            shared = build(case["jobs"][0], ds[0], "c35_shared")
    alone = []
    for k, (job, d) in enumerate(zip(case["jobs"], ds)):
        with sut("a job on its own"):
            alone.append(work(job, d, "c35_%d" % k, shared))
    turns = threads.Turns([lambda j=j, d=d, k=k: work(j, d, "c35_%d" % k, shared)
                           for k, (j, d) in enumerate(zip(case["jobs"], ds))], case["seed"], case["mean"])
    results, errors = turns.run()
    for k, e in enumerate(errors):
        if isinstance(e, (Discard, Violation)):
            raise e
        with sut("a job next to others"):
            if e is not None:
                raise e
        for i, (a, b) in enumerate(zip(alone[k], results[k])):
            check(a == b, "another result next to other jobs than alone", job=k, step=i, ops=case["jobs"][k]["ops"],
                  alone=str(a)[:600], got=str(b)[:600])
        check(len(alone[k]) == len(results[k]), "steps")
    stats.label("shared sample path" if shared else "own sample paths", "jobs=%d" % len(ds), "switches>=%d" % (10 ** len(str(turns.switches)) // 10))
    for j in case["jobs"]:
        stats.label(*{o[0] for o in j["ops"]})
        if j["net"]:
            stats.label("network")
    stats.mark(turns.switches >= 20)
