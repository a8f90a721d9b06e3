from hypothesis import strategies as st
import random
import numpy as np
from .. import gen, learn
from ..core import check, sut
from . import c16


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        d = draw(gen.data(min_vars=2, max_vars=6, max_card=5, max_steps=40))
    elif draw(st.integers(0, 5)) == 0:
        d = draw(gen.mirrors(max_vars=5, max_card=3, min_steps=300, max_steps=900))
    else:
        d = draw(gen.sim(min_vars=3, max_vars=6, max_card=4, max_steps=250, strengths=(1, 2, 4, 16)))
    n = len(d["cards"])
    order = list(draw(st.permutations(range(n))))
    out = order[:draw(st.integers(1, n - 1))]
    cut = draw(st.integers(0, len(out) - 1))
    kept = sorted(order[len(out):])
    pairs = [[i, j] for i in kept for j in kept if i != j]
    return {"d": d, "out": [g for g in (out[:cut], out[cut:]) if g], "prior": draw(gen.edge_indices(n, 3)) if draw(st.booleans()) else [],
            "through": [draw(st.sampled_from(["structure", "graph"])) for _ in range(2)],
            "cfgs": draw(st.lists(learn.any_learner(iterations=(0, 0, 1, 5, 20)), min_size=1, max_size=2)),
            "learn_first": draw(st.booleans()), "families": draw(st.integers(0, 2 ** 16)),
            "known": draw(st.lists(st.sampled_from(pairs), max_size=4, unique_by=tuple)) if pairs and draw(st.booleans()) else [],
            "processes": draw(st.sampled_from([None] * 30 + [2])), "seed": draw(st.integers(0, 2 ** 16))}


def without(d, out):
    keep = [j for j in range(len(d["labels"])) if j not in out]
    return dict(d, labels=[d["labels"][j] for j in keep], cards=[d["cards"][j] for j in keep],
                trajs=[{"t": tr["t"], "x": [[r[j] for j in keep] for r in tr["x"]]} for tr in d["trajs"]])


def family(sutkit, s, child, parents):
    """Statistics of one family on the graph of the sample path, prior edges into the child included."""
    g = sutkit.NetworkGraph(s.structure)
    g.add_edges([(p, child) for p in parents])
    g.fast_init(child)
    p = sutkit.ParametersEstimator(s.trajectories, g)
    p.fast_init(child)
    c = p.compute_parameters_for_node(child)
    return {"combinations": np.asarray(c.p_combs).tolist(),
            "times": [np.asarray(m.state_residence_times, dtype=float).tolist() for m in c.actual_cims],
            "counts": [np.asarray(m.state_transition_matrix).astype(int).tolist() for m in c.actual_cims],
            "intensities": [np.round(m.cim, 9).tolist() for m in c.actual_cims]}, g


def run(case, stats):
    from .. import sutkit
    d = {k: v for k, v in gen.expand(case["d"]).items() if k != "rates"}
    L = d["labels"]
    rng = random.Random(case["families"])
    with sut("import"):
        s = sutkit.sample_path(d, case["prior"] or None)
    if case["learn_first"]:
        cfg = case["cfgs"][0]
        if len(L) < 5 or cfg["kind"] != "ctpc":
            with sut("learning with all the variables"):
                learn.estimate(learn.estimator(s, cfg), cfg, case["seed"])
    gone = set()
    some = False
    for out, through in zip(case["out"], case["through"]):
        for v in out:
            with sut("remove_node"):
                if through == "graph":
                    g = sutkit.NetworkGraph(s.structure)
                    g.add_nodes(s.structure.nodes_labels)
                    g.add_edges(s.structure.edges)
                    g.remove_node(L[v])
                else:
                    s.structure.remove_node(L[v])
            gone.add(v)
        small = without(d, gone)
        M = small["labels"]
        with sut("import of the remaining variables"):
            want = sutkit.sample_path(small, [[M.index(L[a]), M.index(L[b])] for a, b in case["prior"] if not {a, b} & gone] or None)
        # statistics and scores of families of the remaining variables
        for _ in range(3):
            child = rng.choice(M)
            others = [l for l in M if l != child]
            parents = rng.sample(others, rng.randint(0, min(3, len(others))))
            with sut("estimation after removing variables"):
                a, ga = family(sutkit, s, child, parents)
            with sut("estimation without the variables"):
                b, gb = family(sutkit, want, child, parents)
            for k in b:
                check(a[k] == b[k], "%s of a family changed with the variables that were removed" % k, child=child,
                      parents=parents, removed=[L[v] for v in sorted(gone)], got=a[k], want=b[k])
            with sut("score"):
                x, y = [sutkit.StructureScoreBasedEstimator(sample_path=q, tau_xu=0.5, alpha_xu=2).get_score_from_graph(g, child)
                        for q, g in ((s, ga), (want, gb))]
            check(abs(x - y) <= 1e-9 * (1 + abs(y)), "the score changed with the variables that were removed", child=child,
                  parents=parents, got=x, want=y)
            # tests, with a threshold next to the one at which there are just enough data
            if len(M) > 1:
                parent = rng.choice(others)
                cond = [l for l in parents if l != parent]
                need = (small["cards"][M.index(child)] - 1) ** 2
                for v in cond + [parent]:
                    need *= small["cards"][M.index(v)]
                seen = [sum(row[k][k] for k in range(len(row))) for row in family(sutkit, want, child, cond)[0]["counts"]] or [0]
                cfg = {"kind": "ctpc", "exp": rng.choice(learn.LEVELS), "chi": rng.choice(learn.LEVELS),
                       "thumb": min(seen) / need * rng.choice([0.5, 0.999, 1.001, 2])}
                with sut("independence test"):
                    x, y = [c16.ask(learn.estimator(q, cfg), q, small, M.index(parent), M.index(child), [M.index(v) for v in cond])
                            for q in (s, want)]
                check(x == y, "an independence test changed with the variables that were removed", parent=parent, child=child,
                      given=cond, got=x, want=y, cfg=cfg)
        last = out is case["out"][-1]
        known = [(L[a], L[b]) for a, b in case["known"] if not {a, b} & gone]
        for cfg in case["cfgs"]:
            if cfg["kind"] == "ctpc" and len(M) > 4 and not last:
                continue
            res = []
            for q, what in ((s, "learning after removing variables"), (want, "learning without the variables")):
                with sut(what):
                    est = learn.estimator(q, cfg, known)
                    got = learn.pairs(learn.estimate(est, cfg, case["seed"],
                                                     case["processes"] if cfg["kind"] == "ctpc" and last and q is s else None))
                    res.append((got, np.asarray(est.adjacency_matrix()).astype(bool).tolist(),
                                sorted((str(e[0]), str(e[1])) for e in est.spurious_edges())))
            for x, y, what in zip(res[0], res[1], ("the structure", "the adjacency matrix", "the spurious edges")):
                check(x == y, what + " changed with the variables that were removed", removed=[L[v] for v in sorted(gone)],
                      got=x, want=y, cfg=cfg, known=known)
            some = some or 0 < len(res[1][0]) < len(M) * (len(M) - 1)
            stats.label(cfg["kind"])
    check([str(v) for v in s.structure.nodes_labels] == M, "remaining variables", got=s.structure.nodes_labels, want=M)
    stats.label("removed=%d" % len(gone), "remaining=%d" % len(M), "prior" if case["prior"] else "no prior",
                "known" if case["known"] else "nothing known")
    stats.mark(len(M) > 1 and (some or len(M) > 2) and min(gone) < max(L.index(m) for m in M))
