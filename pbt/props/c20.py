from hypothesis import strategies as st
from .. import gen, ref, learn
from ..core import check, sut
from . import c34


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        # many variables whose scores are made up, nearly all of which look good
        n = draw(st.integers(5, 10))
        cfg = draw(learn.score(iterations=(20, 40, 80, 200)))
        cfg["max_parents"] = draw(st.integers(0, 5))
        return {"scripted": {"labels": draw(gen.labels(n)), "landscape": {"kind": draw(st.sampled_from(["slope", "sum", "random"])),
                             "seed": draw(st.integers(0, 2 ** 16))}}, "cfg": cfg,
                "known": draw(learn.known(n, 3)) if draw(st.integers(0, 2)) == 0 else [], "seed": draw(st.integers(0, 2 ** 16))}
    d = draw(learn.small_data(max_vars=6))
    n = len(d["cards"])
    cfg = draw(learn.any_learner(iterations=(0, 1, 5, 20, 40, 80)))
    if cfg["kind"] != "ctpc" and draw(st.booleans()):
        cfg["max_parents"] = draw(st.integers(0, 2))
        cfg["patience"] = None
    return {"d": d, "cfg": cfg, "known": draw(learn.known(n, 3)) if draw(st.booleans()) else [],
            "seed": draw(st.integers(0, 2 ** 16)), "prior": draw(gen.edge_indices(n, 5)),
            "prior_kind": draw(st.sampled_from(["random", "all", "none"])), "weak": draw(st.booleans()),
            "processes": draw(st.sampled_from([None] * 12 + [1, 2, 3]))}


def run_scripted(case, stats):
    from .. import sutkit
    L, cfg = case["scripted"]["labels"], case["cfg"]
    n = len(L)
    d = c34.tiny(L)
    log, scores = [], {}
    with sut("estimate_structure"):
        s = sutkit.sample_path(d)
        est = c34.scripted(s, d, cfg, case["known"], case["scripted"]["landscape"], log, scores)
        res = list(learn.estimate(est, cfg, case["seed"]))
    got = learn.pairs(res)
    check(len(res) == len(got), "an edge is repeated", got=res)
    check(all(a in L and b in L and a != b for a, b in got), "not an edge between two variables", got=got)
    full = False
    for j in range(n):
        ps = learn.parents(res, d, j)
        fixed = {a for a, b in case["known"] if b == j}
        check(len(ps) <= max(cfg["max_parents"], len(fixed)), "too many parents for %s" % L[j],
              parents=sorted(L[p] for p in ps), known=sorted(L[p] for p in fixed), limit=cfg["max_parents"], cfg=cfg)
        full |= len(ps) >= cfg["max_parents"] and n - 1 > cfg["max_parents"]
    stats.label(cfg["kind"], "made-up scores", "variables=%d" % n, "limit reached" if full else "limit not reached")
    stats.mark(full)


def run(case, stats):
    if "scripted" in case:
        return run_scripted(case, stats)
    from .. import sutkit
    d = gen.expand(case["d"])
    cfg, L = dict(case["cfg"]), d["labels"]
    n = len(L)
    if case["weak"] and cfg["kind"] != "ctpc":
        cfg["tau"], cfg["alpha"] = 50, 20   # many parents look good
    prior = {"random": case["prior"], "all": [[i, j] for i in range(n) for j in range(n) if i != j], "none": None}
    prior = prior[case["prior_kind"]] or None
    with sut("estimate_structure"):
        s = sutkit.sample_path(d, prior)
        est = learn.estimator(s, cfg, learn.edges_arg(d, case["known"]))
        res = list(learn.estimate(est, cfg, case["seed"], case.get("processes")))
    got = learn.pairs(res)
    check(len(res) == len(got), "an edge is repeated", got=res)
    for a, b in got:
        check(a in L and b in L, "an edge of a variable that is not in the data", edge=(a, b))
        check(a != b, "an edge from a variable to itself", edge=(a, b))
    full = False
    if cfg["kind"] != "ctpc" and cfg["max_parents"] is not None:
        for j in range(n):
            ps = learn.parents(res, d, j)
            fixed = {a for a, b in case["known"] if b == j}
            # known parents may exceed the limit; others only fill what they leave
            check(len(ps) <= max(cfg["max_parents"], len(fixed)), "too many parents for %s" % L[j],
                  parents=sorted(L[p] for p in ps), known=sorted(L[p] for p in fixed), limit=cfg["max_parents"], cfg=cfg)
            full |= len(ps) >= cfg["max_parents"] and n - 1 > cfg["max_parents"]
    stats.label(cfg["kind"], "variables=%d" % n, "limit reached" if full else "limit not reached",
                "prior " + case["prior_kind"], "edges" if got else "no edges")
    stats.mark(n > 1 and (full or (cfg["kind"] == "ctpc" and bool(got))))
