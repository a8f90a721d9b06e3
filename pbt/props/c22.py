from hypothesis import strategies as st
import copy
from .. import gen, ref, learn
from ..core import check, sut



@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["any", "frozen", "one", "tiny", "big", "late"]))
    if kind == "one":
        d = draw(gen.data(min_vars=1, max_vars=1, max_card=4, big=8, max_steps=10))
    elif kind == "tiny":
        d = draw(gen.data(min_vars=1, max_vars=4, max_steps=2, max_trajs=2))
    elif kind == "big":
        d = draw(gen.data(min_vars=2, max_vars=3, max_card=3, big=9, max_steps=40))
    else:
        d = draw(learn.small_data(max_vars=5))
    n = len(d["cards"])
    cfg = draw(learn.any_learner())
    if cfg["kind"] == "ctpc":
        cfg["exp"] = draw(st.sampled_from([1e-12, 0.1, 0.5, 0.999]))
        cfg["chi"] = draw(st.sampled_from([1e-12, 0.1, 0.5, 0.999]))
        cfg["thumb"] = draw(st.sampled_from([0, 1, 25, 10 ** 6]))
    return {"d": d, "kind": kind, "cfg": cfg, "known": draw(learn.known(n)), "seed": draw(st.integers(0, 2 ** 16)),
            "frozen": draw(st.lists(st.integers(0, n - 1), max_size=n)),
            "prior": draw(gen.edge_indices(n, 3)) if draw(st.booleans()) else [],
            "processes": draw(st.sampled_from([None] * 12 + [1, 2])), "reports": draw(st.integers(0, 3)) == 0,
            "defaults": draw(st.integers(0, 5)) == 0}


def run(case, stats):
    from .. import sutkit
    d = copy.deepcopy(gen.expand({k: v for k, v in case["d"].items()}))
    L = d["labels"]
    n = len(L)
    if case["kind"] in ("frozen", "late"):
        # some variables are never observed to change
        still = case["frozen"] or list(range(n))
        for tr in d["trajs"]:
            for j in still:
                v = 0 if case["kind"] == "frozen" else d["cards"][j] - 1
                tr["x"] = [[v if k == j and s != -1 else s for k, s in enumerate(x)] for x in tr["x"]]
    cfg = case["cfg"]
    with sut("learning a structure"):
        s = sutkit.sample_path(d, case["prior"] or None)
        est = learn.estimator(s, cfg, learn.edges_arg(d, case["known"]))
        if case["defaults"]:
            res = est.estimate_structure(disable_multiprocessing=True)
        else:
            res = learn.estimate(est, cfg, case["seed"], case["processes"])
        got = learn.pairs(res)
        if case["reports"]:
            est.adjacency_matrix()
            est.spurious_edges()
    known = {(L[a], L[b]) for a, b in case["known"]}
    for a, b in got:
        check(a in L and b in L and a != b, "not an edge between two variables", edge=(a, b))
    check(known <= got, "a known edge is missing", missing=known - got)
    extreme = []
    if n == 1:
        extreme.append("one variable")
    if len(known) == n * (n - 1):
        extreme.append("every edge known")
    if any(len({x[j] for tr in d["trajs"] for x in tr["x"]} - {-1}) < 2 for j in range(n)):
        extreme.append("a variable never changes")
    if cfg["kind"] != "ctpc" and not case["defaults"]:
        if cfg["max_parents"] == 0:
            extreme.append("limit zero")
        if cfg["iterations"] == 0:
            extreme.append("no iterations")
        if cfg["kind"] == "tabu" and max(cfg["tabu_length"] or 0, cfg["tabu_duration"] or 0) >= n:
            extreme.append("more tabu entries than variables")
    stats.label(cfg["kind"], case["kind"], *extreme)
    stats.mark(bool(extreme))
