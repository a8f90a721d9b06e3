from hypothesis import strategies as st
import math
from .. import gen, ref, learn
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        d = draw(gen.data(min_vars=2, max_vars=5, max_card=4, big=6, max_steps=40))
    else:
        d = draw(gen.sim(min_vars=2, max_vars=6, max_card=4, max_steps=600))
    n = len(d["cards"])
    if kind == 1:
        # one variable with four or more states, the first or the last of which are never seen
        j = draw(st.integers(0, n - 1))
        d["cards"][j] = draw(st.integers(4, 6))
        k = draw(st.integers(1, d["cards"][j] - 3))
        idle = list(range(k)) if draw(st.booleans()) else list(range(d["cards"][j] - k, d["cards"][j]))
        d["sim"]["idle"] = [[j, v] for v in idle]
    queries = []
    for _ in range(draw(st.integers(1, 5))):
        child = draw(st.integers(0, n - 1)) if kind != 1 else j
        chosen = draw(gen.parents_of(n, child, 5).filter(bool)) if n > 1 else []
        while len(chosen) > 1 and math.prod(d["cards"][p] for p in chosen) > 150:
            chosen = chosen[:-1]
        queries.append([chosen[0], child, chosen[1:]])
    cfg = draw(learn.ctpc())
    # the level of one test put next to the one at which the answer turns
    sharp = draw(st.sampled_from([None, "exp", "chi", "chi"]))
    if sharp:
        cfg["thumb"] = draw(st.sampled_from([0, 0, 0, 1]))
    return {"d": d, "cfg": cfg, "queries": queries, "sharp": sharp,
            "side": draw(st.sampled_from([-1e-2, -1e-4, 1e-4, 1e-2]))}


def ask(est, s, d, parent, child, cond, given=None):
    L = d["labels"]
    ans = est.complete_test(L[parent], L[child], [L[c] for c in cond] if given is None else given, d["cards"][child],
                            s.total_variables_count,
                            s.structure.get_node_indx(L[parent]), s.structure.get_node_indx(L[child]))
    check(ans is True or ans is False or type(ans).__name__ == "bool_", "the answer is not a boolean", got=ans)
    return bool(ans)


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    with sut("import"):
        s = sutkit.sample_path(d)
    for parent, child, cond in case["queries"]:
        cfg = case["cfg"]
        tester = ref.Tester(d, cfg["exp"], cfg["chi"], cfg["thumb"])
        if case.get("sharp"):
            level = tester.critical_level(parent, child, cond, case["sharp"])
            if level is not None:
                other = "exp" if case["sharp"] == "chi" else "chi"
                cfg = {**cfg, case["sharp"]: level * (1 + case["side"]), other: 1e-9}
                tester.ea, tester.ca = cfg["exp"], cfg["chi"]
                stats.label("level next to the critical one")
        try:
            want, lack = tester.independent(parent, child, cond)
        except ref.Near:
            stats.label("statistic at its quantile (skipped)")
            continue
        with sut("independence test"):
            est = learn.estimator(s, cfg)
            got = ask(est, s, d, parent, child, cond)
        check(got == want, "independence test", parent=d["labels"][parent], child=d["labels"][child],
              given=[d["labels"][c] for c in cond], got=got, want=want, lack_of_data=lack, cfg=cfg)
        stats.label("independent" if want else "dependent" if lack is False else "too few data", "given=%d" % len(cond),
                    "child states=%d" % d["cards"][child])
        departures = sum(M[x][x] for _, M in tester.stats(child, cond).values() for x in range(len(M)))
        stats.mark(departures > 5 and lack is False)
