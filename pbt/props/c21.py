from hypothesis import strategies as st
import random
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut
from . import c34
from .c14 import reference


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 4)) < 2:
        # made-up scores
        n = draw(st.sampled_from([6, 7, 8, 2, 3, 4, 5, 6]))
        child = draw(st.integers(0, n - 1))
        cfg = draw(learn.score())
        cfg["max_parents"] = draw(st.sampled_from([2, None, None, 1, 0, 2, 3, 3]))
        if draw(st.integers(0, 3)):
            cfg["patience"] = None
        return {"scripted": {"labels": draw(gen.labels(n)), "landscape": {"kind": draw(st.sampled_from(["sum", "random", "sum", "random", "slope", "plateaus"])),
                             "seed": draw(st.integers(0, 2 ** 16))}}, "cfg": cfg, "child": child,
                "known": draw(st.lists(st.sampled_from([i for i in range(n) if i != child]), unique=True, max_size=max(0, n - 2)))
                if draw(st.integers(0, 2)) == 0 else [],
                "mode": draw(st.sampled_from(["optimum", "prefix", "prefix", "prefix", "patience", "gain"])), "seed": draw(st.integers(0, 2 ** 16)),
                "more": list(range(27)) + [32, 40]}
    d = draw(gen.sim(min_vars=3 if draw(st.integers(0, 4)) else 2, max_vars=5, max_card=3, min_steps=60, max_steps=400,
                     max_trajs=2, strengths=(2, 8, 16, 16)))
    n = len(d["cards"])
    child = draw(st.integers(0, n - 1))
    others = [i for i in range(n) if i != child]
    known = draw(st.lists(st.sampled_from(others), unique=True, max_size=max(0, n - 2))) if draw(st.booleans()) else []
    cfg = draw(learn.score())
    if draw(st.booleans()):
        cfg["max_parents"] = None
    mode = draw(st.sampled_from(["optimum", "prefix", "prefix", "patience", "gain"]))
    return {"d": d, "cfg": cfg, "child": child, "known": known, "mode": mode, "seed": draw(st.integers(0, 2 ** 16)),
            "more": sorted(draw(st.lists(st.integers(0, 40), min_size=2, max_size=5)))}


def run(case, stats):
    from .. import sutkit
    made_up = case.get("scripted")
    d = c34.tiny(made_up["labels"]) if made_up else gen.expand(case["d"])
    L, child = d["labels"], case["child"]
    n = len(L)
    cfg = dict(case["cfg"])
    tau, alpha = cfg["tau"], cfg["alpha"]
    memo = {}

    def score(ps):
        key = tuple(sorted(ps))
        if key not in memo and made_up:
            memo[key] = c34.landscape(made_up["landscape"], L[child], [L[p] for p in key]), 0.0
        elif key not in memo:
            memo[key] = reference(ref.stats(d, child, key), tau, alpha)
        return memo[key]

    def better(a, b):
        """a scores better than b, beyond rounding."""
        (x, sx), (y, sy) = score(a), score(b)
        return x > y + (0 if made_up else 1e-9 * (1 + max(sx, sy)))
    with sut("import"):
        s = sutkit.sample_path(d)
        if made_up:
            est = c34.scripted(s, d, cfg, [[p, child] for p in case["known"]], made_up["landscape"], [], {})
        else:
            est = learn.estimator(s, cfg, [(L[p], L[child]) for p in case["known"]])

    def search(**changes):
        c = dict(cfg, **changes)
        random.seed(case["seed"])
        np.random.seed(case["seed"])
        with sut("estimate_parents"):
            res = est.estimate_parents(L[child], **learn.score_args(c))
        for a, b in learn.pairs(res):
            check(b == L[child] and a in L and a != b, "not an edge into %s" % L[child], edge=(a, b))
        ps = learn.parents(res, d, child)
        check(set(case["known"]) <= ps, "a known parent is missing", got=ps, known=case["known"])
        check(not better(case["known"], ps), "worse than the known parents alone", got=ps, known=case["known"],
              score=score(ps)[0], known_score=score(case["known"])[0], cfg=c)
        return ps
    mode = case["mode"]
    if mode == "optimum":
        ps = search(max_parents=None, patience=None, iterations=600 if made_up else 400)
        for v in range(n):
            if v != child and v not in case["known"]:
                other = ps ^ {v}
                check(not better(other, ps), "not a local optimum", got=sorted(ps), better=sorted(other),
                      score=score(ps)[0], other_score=score(other)[0], cfg=cfg)
    elif mode == "gain":
        ps = search()
    else:
        previous = None
        for k in case["more"]:
            ps = search(iterations=k) if mode == "prefix" else search(patience=k, iterations=40)
            if previous is not None:
                check(not better(previous[1], ps), "worse with more %s" % ("iterations" if mode == "prefix" else "patience"),
                      few=previous[0], many=k, before=sorted(previous[1]), after=sorted(ps), cfg=cfg)
            previous = (k, ps)
        ps = previous[1]
    stats.label(cfg["kind"], mode, "made-up scores" if made_up else "real scores", "parents=%d" % len(ps), "known=%d" % len(case["known"]))
    stats.mark(ps != set(case["known"]) and n > 2)
