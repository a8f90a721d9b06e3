from hypothesis import strategies as st
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut, Discard
from .c15 import recoded, split


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 5)) == 0:
        d = draw(gen.data(min_vars=2, max_vars=4, max_card=4, max_steps=40))
    else:
        d = draw(gen.sim(min_vars=3 if draw(st.integers(0, 3)) else 2, max_vars=5, max_card=draw(st.sampled_from([2, 3, 4])),
                         min_steps=60, max_steps=500, strengths=(2, 4, 16, 16)))
    n = len(d["cards"])
    if draw(st.integers(0, 4)):
        cfg = draw(learn.ctpc(thresholds=(0, 0, 0, 2, 25)))
        kinds = ["names", "trajectories", "split"] + (["states"] if cfg["thumb"] == 0 else [])
    else:
        cfg = draw(learn.score(iterations=(5, 20, 40)))
        kinds = ["trajectories", "split"]
    return {"d": d, "cfg": cfg, "changes": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3)),
            "names": draw(gen.labels(n)), "codes": [list(draw(st.permutations(range(c)))) for c in d["cards"]],
            "seed": draw(st.integers(0, 2 ** 16)), "known": draw(learn.known(n, 2)) if draw(st.integers(0, 3)) == 0 else []}


def run(case, stats):
    from .. import sutkit
    d = {k: v for k, v in gen.expand(case["d"]).items() if k != "rates"}
    cfg, L = case["cfg"], d["labels"]
    n = len(L)
    rng = np.random.RandomState(case["seed"])

    def learned(data):
        s = sutkit.sample_path(data)
        est = learn.estimator(s, cfg, learn.edges_arg(data, case["known"]))
        M = data["labels"]
        return {(M.index(a), M.index(b)) for a, b in learn.pairs(learn.estimate(est, cfg, case["seed"]))}
    d2 = d
    for c in case["changes"]:
        if c == "names":
            d2 = dict(d2, labels=[l if l != d["time"] else l + "_" for l in case["names"]])
        elif c == "trajectories":
            d2 = dict(d2, trajs=[d2["trajs"][i] for i in rng.permutation(len(d2["trajs"]))])
        elif c == "split":
            d2 = split(d2, rng)
        else:
            d2 = recoded(d2, case["codes"])
    with sut("estimate_structure"):
        a = learned(d)
    with sut("estimate_structure on the rewritten data"):
        b = learned(d2)
    if a != b and cfg["kind"] == "ctpc":
        # a statistic at its quantile can be pushed over it by rounding
        tester = ref.Tester(d, cfg["exp"], cfg["chi"], cfg["thumb"])
        try:
            for j in range(n):
                ref.ctpc(tester, j, {p for p, c in case["known"] if c == j})
        except ref.Near:
            raise Discard("statistic at its quantile")
    check(a == b, "the structure depends on how the data are written: %s" % case["changes"],
          before=sorted((L[i], L[j]) for i, j in a), after=sorted((L[i], L[j]) for i, j in b), cfg=cfg)
    stats.label(cfg["kind"], *case["changes"])
    stats.label("edges=%d" % min(len(a), 6), "variables=%d" % n)
    stats.mark(0 < len(a) < n * (n - 1))
