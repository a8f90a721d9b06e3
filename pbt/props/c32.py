from hypothesis import strategies as st
import copy
import json
import os
import random
import numpy as np
from .. import gen, nets, other
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 6))
    nt = draw(nets.net(max_vars=5, max_card=4, max_parents=3))
    nt["make"] = "own"
    return {"labels": draw(gen.labels(n)), "cards": draw(gen.cards(n, 4)), "density": draw(st.sampled_from([0.0, 0.2, 0.5, 1.0, 0.5])),
            "fixed": draw(st.booleans()), "range": sorted([draw(st.sampled_from([0.1, 1, 3])), draw(st.sampled_from([2, 10, 50]))]),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "net": nt,
            "steps": draw(st.lists(st.one_of(
                st.tuples(st.just("tr"), st.integers(0, 40)), st.tuples(st.just("end"), st.integers(0, 30)),
                st.tuples(st.just("network"), st.integers(0, 9)), st.tuples(st.just("fresh"), st.integers(0, 9)),
                st.tuples(st.just("export"), st.integers(0, 9)), st.tuples(st.just("edit"), st.integers(0, 9))), min_size=1, max_size=6)),
            "parallel": draw(st.lists(st.integers(0, 25), min_size=1, max_size=4)) if draw(st.integers(0, 7)) == 0 else [],
            "hash": draw(st.integers(1, 99)) if draw(st.integers(0, 79)) == 0 else 0}


def seed(k):
    random.seed(k)
    np.random.seed(k % 2 ** 32)


def network(case, k, ng=None):
    """Edges in order, matrices of one generated network, as plain data."""
    from .. import sutkit
    ng = ng or sutkit.NetworkGenerator(list(case["labels"]), list(case["cards"]))
    seed(k)
    n = len(case["labels"])
    whole = n < 2 or abs(case["density"] * n * (n - 1) - round(case["density"] * n * (n - 1))) < 1e-12
    ng.generate_graph(case["density"], case["fixed"] and whole)
    sizes = {l: 1 for l in case["labels"]}
    for a, b in ng.graph.edges:
        sizes[b] *= case["cards"][case["labels"].index(a)]
    if sum(sizes.values()) <= 500:
        ng.generate_cims(*case["range"])
    return plain_network(case["labels"], ng.dyn_str, ng.variables, ng.cims)


def plain_network(labels, dyn_str, variables, cims):
    return {"edges": sorted([str(v) for v in r] for r in dyn_str.values.tolist()),
            "variables": [[str(a), int(b)] for a, b in variables.values.tolist()],
            "matrices": None if cims is None else
            {l: [np.asarray(cims[l].p_combs).tolist(), [np.asarray(m.cim, dtype=float).tolist() for m in list(cims[l].actual_cims)]]
             for l in labels}}


def plain(tr):
    return [list(map(str, tr.columns)), tr.to_numpy(dtype=float).tolist()]


def sample(tg, kind, size, k, fast):
    seed(k)
    return tg.CTBN_Sample(max_tr=size) if kind == "tr" else tg.CTBN_Sample(t_end=size / fast)


def elsewhere(case):
    """What another process generates and samples (see other.py)."""
    from .. import sutkit
    variables, dyn_str, cims, rates, edges = nets.build(case["net"])
    tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    n = len(case["labels"])
    more = [network(dict(case, density=k / max(1, n * (n - 1)), fixed=True), case["seed"] + k) for k in range(0, n * (n - 1) + 1, 1 + n // 4)]
    return [network(case, case["seed"]), more, plain(sample(tg, "tr", 15, case["seed"], 1))]


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L = nt["labels"]
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    fast = nets.fastest(rates)
    before = plain_network(L, dyn_str, variables, cims)
    with sut("TrajectoryGenerator"):
        tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    with sut("NetworkGenerator"):
        first = network(case, case["seed"])
    drawn = {}
    kept = []
    for kind, size in case["steps"]:
        if kind == "network":
            with sut("NetworkGenerator"):
                again = network(case, case["seed"])
            for k in first:
                check(again[k] == first[k], "another network from the same random state: " + k, first=first[k], again=again[k])
        elif kind == "edit":
            # a generator whose first graph is edited
            mine = list(case["labels"]), list(case["cards"])
            with sut("NetworkGenerator"):
                ng = sutkit.NetworkGenerator(*mine)
                ng.generate_graph(0.5)
                if len(mine[0]) > 1:
                    ng.graph.remove_node(mine[0][size % len(mine[0])])
                again = network(case, case["seed"], ng)
            check(mine == (case["labels"], case["cards"]), "the caller's labels or cardinalities changed", got=mine)
            for k in first:
                check(again[k] == first[k], "another network from the same random state after the graph was edited: " + k,
                      first=first[k], again=again[k])
        elif kind == "fresh":
            with sut("TrajectoryGenerator"):
                tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
        elif kind == "export":
            try:
                with sut("JsonExporter"):
                    e = sutkit.JsonExporter(variables, dyn_str, cims)
                    for f, _ in kept[:1]:
                        e.add_trajectory(f)
                    e.out_file("c32.json")
            finally:
                if os.path.exists("c32.json"):
                    os.remove("c32.json")
        else:
            with sut("CTBN_Sample"):
                f = sample(tg, kind, size, case["seed"] + size, fast)
            p = plain(f)
            want = drawn.setdefault((kind, size), p)
            check(p == want, "another trajectory from the same random state", request=(kind, size), first=want[1][:4], again=p[1][:4])
            kept.append((f, p))
        now = plain_network(L, dyn_str, variables, cims)
        for k in before:
            check(now[k] == before[k], "%s changed the network: %s" % (kind, k), before=before[k], after=now[k])
    for f, p in kept:
        check(plain(f) == p, "an earlier trajectory was changed", before=p[1][:4], after=plain(f)[1][:4])
    # every request once more, on a new generator
    with sut("TrajectoryGenerator"):
        new = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    for (kind, size), want in sorted(drawn.items()):
        with sut("CTBN_Sample"):
            p = plain(sample(new, kind, size, case["seed"] + size, fast))
        check(p == want, "another trajectory from the same random state and a new generator", request=(kind, size),
              first=want[1][:4], again=p[1][:4])
    if case["parallel"]:
        got = []
        for g in (tg, new):
            seed(case["seed"])
            with sut("multi_trajectory"):
                got.append(sorted(plain(f)[1] for f in g.multi_trajectory(max_trs=list(case["parallel"]))))
        check(got[0] == got[1], "other parallel trajectories from the same random state", first=got[0][:1], again=got[1][:1])
        stats.label("parallel")
    if case["hash"]:
        r = other.ask(dict(case, task="c32"), case["hash"])
        check(not isinstance(r, str), "generating in another process failed", error=r)
        with sut("generating"):
            mine = json.loads(json.dumps(elsewhere(case)))
        check(r == mine, "another network or trajectory in another process", here=mine, there=r)
        stats.label("two processes")
    stats.label(*sorted({k for k, _ in case["steps"]}))
    stats.mark(len(drawn) > 0 and (len(kept) > len(drawn) or len(kept) > 1 or bool(first["edges"])))
