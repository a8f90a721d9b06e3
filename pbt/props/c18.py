from hypothesis import strategies as st
from .. import gen, ref, learn
from ..core import check, sut, Discard


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 19)) == 0:
        # many conditioning sets, most of them rejected by chance
        d = draw(gen.sim(min_vars=7, max_vars=9, max_card=2, max_trajs=2, min_steps=50, max_steps=150, strengths=(1, 2)))
        return {"d": d, "cfg": {"kind": "ctpc", "exp": draw(st.sampled_from([0.2, 0.4, 0.6, 0.6])), "chi": 1e-6, "thumb": 0},
                "known": [], "prior": []}
    if draw(st.integers(0, 3)) == 0:
        # relatives that are independent only given the right others, and subsets that lack data among those that do not
        level = draw(st.sampled_from([1e-2, 1e-3, 1e-6]))
        return {"d": draw(gen.mirrors()), "known": [], "prior": [],
                "cfg": {"kind": "ctpc", "exp": level, "chi": level, "thumb": draw(st.sampled_from([0, 0.05, 0.2, 0.5, 1, 2]))}}
    if draw(st.integers(0, 5)) == 0:
        d = draw(gen.data(min_vars=1, max_vars=4, max_card=4, max_steps=40))
    else:
        d = draw(gen.sim(min_vars=3 if draw(st.integers(0, 3)) else 2, max_vars=5 if draw(st.integers(0, 2)) else 6,
                         max_card=draw(st.sampled_from([2, 3, 4])), min_steps=100, max_steps=800,
                         strengths=(2, 4, 16, 16)))
    n = len(d["cards"])
    return {"d": d, "cfg": draw(learn.ctpc()), "known": draw(learn.known(n, 3)) if draw(st.booleans()) else [],
            "prior": draw(gen.edge_indices(n, 2)) if draw(st.booleans()) else []}


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    cfg, L = case["cfg"], d["labels"]
    n = len(L)
    tester = ref.Tester(d, cfg["exp"], cfg["chi"], cfg["thumb"])
    trace = []
    try:
        admissible = [ref.ctpc(tester, j, {a for a, b in case["known"] if b == j}, trace) for j in range(n)]
    except ref.Near:
        raise Discard("statistic at its quantile")
    with sut("estimate_structure"):
        s = sutkit.sample_path(d, case["prior"] or None)
        est = learn.estimator(s, cfg, learn.edges_arg(d, case["known"]))
        res = learn.estimate(est, cfg)
    got = learn.pairs(res)
    for a, b in got:
        check(a in L and b in L and a != b, "not an edge between two variables", edge=(a, b))
    for j in range(n):
        ps = frozenset(learn.parents(res, d, j))
        check(ps in admissible[j], "parents of %s" % L[j], got=sorted(L[p] for p in ps),
              want=[sorted(L[p] for p in q) for q in admissible[j]], cfg=cfg, known=case["known"])
    deepest = max([len(c) for _, c, _, _ in trace], default=0)
    stats.label("tests<=%d" % (10 * -(-len(trace) // 10)), "largest set=%d" % deepest,
                "lack of data" if any(l is not False for _, _, a, l in trace if not a) else "enough data",
                "ambiguous" if any(len(a) > 1 for a in admissible) else "one result",
                "known edges" if case["known"] else "nothing known")
    kept = sum(len(min(a, key=len)) for a in admissible)
    stats.mark(deepest >= 1 and 0 < kept < n * (n - 1))
