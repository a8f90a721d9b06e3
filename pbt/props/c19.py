from hypothesis import strategies as st
import random
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    many = draw(st.integers(0, 9)) == 5
    d = draw(learn.many_variables()) if many else draw(learn.small_data(min_vars=2))
    n = len(d["cards"])
    cfg = draw(learn.any_learner())
    known = draw(learn.known(n).filter(bool))
    if many:
        # nearly every edge into one variable
        j = draw(st.integers(0, n - 1))
        known = [[i, j] for i in draw(st.permutations([i for i in range(n) if i != j]))[:draw(st.integers(4, n - 1))]]
        if cfg["kind"] != "ctpc":
            cfg["iterations"] = min(cfg["iterations"], 5)
        else:
            cfg["exp"] = min(cfg["exp"], 0.1)   # else nothing is ever removed, and every set of separators is tried
    prior = draw(gen.edge_indices(n, 2)) if draw(st.booleans()) else []
    if n > 2 and draw(st.integers(0, 3)) == 0:
        # prior edges into a variable that has known parents
        j = known[0][1]
        prior = [[i, j] for i in range(n) if i != j and [i, j] not in known] or prior
    return {"d": d, "cfg": cfg, "known": known,
            "form": draw(st.integers(0, 2)), "seed": draw(st.integers(0, 2 ** 16)), "child": draw(st.integers(0, n - 1)),
            "prior": [] if many and cfg["kind"] == "ctpc" else prior, "twice": draw(st.booleans()) and not many}


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    cfg, L, child, seed = case["cfg"], d["labels"], case["child"], case["seed"]
    # the same edge may be listed twice
    listed = case["known"] + case["known"][:1] if case["form"] == 2 else case["known"]
    want = {(L[a], L[b]) for a, b in case["known"]}
    with sut("estimate_structure"):
        s = sutkit.sample_path(d, case["prior"] or None)
        before = learn.estimate(learn.estimator(s, cfg), cfg, seed)
        est = learn.estimator(s, cfg, learn.edges_arg(d, listed, case["form"]))
        res = learn.estimate(est, cfg, seed)
        if case["twice"]:
            res2 = learn.estimate(est, cfg, seed + 1)
            check(want <= learn.pairs(res2), "a known edge is missing after learning again", known=want, got=res2, cfg=cfg)
    got = learn.pairs(res)
    check(want <= got, "a known edge is missing", missing=want - got, known=want, cfg=cfg)
    # the edges into one variable depend on the known edges into it only
    into = [e for e in case["known"] if e[1] == child]
    with sut("learning with fewer known edges"):
        if cfg["kind"] == "ctpc":
            one = learn.pairs(learn.estimate(learn.estimator(s, cfg, learn.edges_arg(d, into)), cfg))
            a, b = {e for e in got if e[1] == L[child]}, {e for e in one if e[1] == L[child]}
        else:
            free = sutkit.sample_path(d)
            out = []
            for k in (listed, into):
                e = learn.estimator(free, cfg, learn.edges_arg(d, k, case["form"] % 2))
                random.seed(seed)
                np.random.seed(seed)
                out.append(learn.pairs(e.estimate_parents(L[child], **learn.score_args(cfg))))
            a, b = out
    check(a == b, "known edges into other variables change the edges into %s" % L[child], all_known=a, only_its_own=b,
          known=want, cfg=cfg)
    with sut("learning without known edges"):
        after = learn.estimate(learn.estimator(s, cfg), cfg, seed)
        explicit = learn.estimate(learn.estimator(s, cfg, []), cfg, seed)
    check(learn.pairs(before) == learn.pairs(after) == learn.pairs(explicit),
          "an edge given to another estimator is treated as known", before=before, after=after, explicit=explicit, cfg=cfg)
    if case["prior"]:
        with sut("learning without a prior network"):
            bare = learn.estimate(learn.estimator(sutkit.sample_path(d), cfg), cfg, seed)
            with_known = learn.estimate(learn.estimator(sutkit.sample_path(d), cfg, learn.edges_arg(d, listed, case["form"])), cfg, seed)
        check(learn.pairs(with_known) == got, "the edges of the prior network change what is learned with known edges",
              prior=case["prior"], known=want, got=got, without=with_known, cfg=cfg)
        check(learn.pairs(bare) == learn.pairs(before), "the edges of the prior network change what is learned", prior=case["prior"],
              got=before, without=bare, cfg=cfg)
    free_edges = got - want
    # known edges the data speak against are the interesting ones
    stats.label(cfg["kind"], "known=%d" % min(len(want), 6), "known edge not learned alone" if want - learn.pairs(before)
                else "known edges learned anyway", "more edges" if free_edges else "only the known ones")
    stats.mark(bool(want - learn.pairs(before)))
