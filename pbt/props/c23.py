from hypothesis import strategies as st
import copy
import random
import numpy as np
from .. import gen, ref, learn, other
from ..core import check, sut


@st.composite
def jobs(draw):
    """Learning problems of which each is solved in two processes with different string hashes."""
    out = []
    for _ in range(draw(st.integers(4, 8))):
        d = draw(gen.sim(min_vars=3, max_vars=5, max_card=3, max_trajs=1, max_steps=80))
        n = len(d["cards"])
        cfg = draw(learn.ctpc() if draw(st.integers(0, 4)) == 0 else learn.score(iterations=(1, 2, 3, 5, 8)))
        out.append({"d": d, "cfg": cfg, "known": draw(learn.known(n, 3)) if draw(st.booleans()) else [],
                    "seed": draw(st.integers(0, 2 ** 16)), "prior": draw(gen.edge_indices(n, 2)) if draw(st.booleans()) else []})
    return {"jobs": out, "hashes": draw(st.permutations([1, 2, 3, 4, 5]))[:2]}


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 39)) == 0:
        return draw(jobs())
    d = draw(learn.small_data(max_vars=5))
    n = len(d["cards"])
    cfgs = draw(st.lists(learn.any_learner(), min_size=1, max_size=3))
    return {"d": d, "cfgs": cfgs, "known": draw(learn.known(n, 3)) if draw(st.booleans()) else [],
            "form": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 2 ** 16)),
            "prior": draw(gen.edge_indices(n, 3)) if draw(st.integers(0, 2)) else [],
            "processes": draw(st.sampled_from([None] * 4 + [1, 2, 3, 40])),
            "steps": draw(st.lists(st.tuples(st.integers(0, len(cfgs) - 1), st.booleans()), min_size=1, max_size=4))}


def snapshot(s):
    st_ = s.structure
    return {"times": np.array(s.trajectories.times, copy=True), "rows": np.array(s.trajectories.complete_trajectory, copy=True),
            "labels": [str(v) for v in st_.nodes_labels], "values": [int(v) for v in st_.nodes_values],
            "indexes": [int(v) for v in st_.nodes_indexes], "edges": sorted((str(a), str(b)) for a, b in st_.edges),
            "total": int(s.total_variables_count), "prior": bool(s.has_prior_net_structure)}


def unchanged(a, b, what):
    for k in a:
        same = np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k]
        check(same, "%s: %s of the sample path changed" % (what, k), before=a[k] if k not in ("times", "rows") else "...",
              after=b[k] if k not in ("times", "rows") else "...")


def two_processes(case, stats):
    a, b = [other.ask(case, h) for h in case["hashes"]]
    for r in (a, b):
        check(not isinstance(r, str), "learning in another process failed", error=r)
    for k, (p, q) in enumerate(zip(a, b)):
        check(p == q, "another structure in another process", job=k, first=p, second=q, cfg=case["jobs"][k]["cfg"])
    stats.label("two processes", "jobs=%d" % len(a))
    stats.mark(any(a))


def run(case, stats):
    from .. import sutkit
    if "jobs" in case:
        return two_processes(case, stats)
    d = gen.expand(case["d"])
    L = d["labels"]
    known = learn.edges_arg(d, case["known"], case["form"])
    keep = copy.deepcopy(known)
    with sut("import"):
        s = sutkit.sample_path(d, case["prior"] or None)
    first = snapshot(s)
    check(first["edges"] == sorted((L[a], L[b]) for a, b in case["prior"]), "prior edges", got=first["edges"])
    estimators = {}
    results = {}
    for k, fresh in case["steps"]:
        cfg = case["cfgs"][k]
        with sut("learning"):
            if fresh or k not in estimators:
                estimators[k] = learn.estimator(s, cfg, known)
            res = learn.pairs(learn.estimate(estimators[k], cfg, case["seed"]))
        if k in results:
            check(res == results[k], "learning again gives another structure", first=results[k], again=res, cfg=cfg,
                  new_estimator=fresh)
        results.setdefault(k, res)
        unchanged(first, snapshot(s), "after learning")
        check(known == keep, "the list of known edges changed", before=keep, after=known)
    k = case["steps"][0][0]
    cfg = case["cfgs"][k]
    # the same on new objects
    with sut("learning on a new sample path"):
        s2 = sutkit.sample_path(d, case["prior"] or None)
        res = learn.pairs(learn.estimate(learn.estimator(s2, cfg, known), cfg, case["seed"]))
    check(res == results[k], "another structure from a new sample path of the same data", first=results[k], again=res, cfg=cfg)
    with sut("learning once more on the first estimator"):
        res = learn.pairs(learn.estimate(estimators[k], cfg, case["seed"]))
    check(res == results[k], "learning again gives another structure", first=results[k], again=res, cfg=cfg)
    if case["processes"] is not None:
        with sut("learning with %d processes" % case["processes"]):
            res = learn.pairs(learn.estimate(estimators[k], cfg, case["seed"], case["processes"]))
        if cfg["kind"] == "ctpc":
            check(res == results[k], "another structure with %d processes" % case["processes"], serial=results[k],
                  parallel=res, cfg=cfg)
        unchanged(first, snapshot(s), "after learning with %d processes" % case["processes"])
        with sut("learning after a parallel run"):
            res = learn.pairs(learn.estimate(estimators[k], cfg, case["seed"]))
        check(res == results[k], "another structure after a parallel run", first=results[k], again=res, cfg=cfg)
    check(known == keep, "the list of known edges changed", before=keep, after=known)
    stats.label(cfg["kind"], "processes=%s" % case["processes"], "runs=%d" % len(case["steps"]),
                "prior edges" if case["prior"] else "no prior", "known edges" if known else "nothing known")
    stats.mark(any(results.values()) and len(L) > 1)
