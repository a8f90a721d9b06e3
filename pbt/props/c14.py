from hypothesis import strategies as st
import math
import numpy as np
from .. import gen, ref
from ..core import check, sut

HYPER = st.one_of(st.sampled_from([0.1, 1, 1.0, 2, 10, 0.5]), st.floats(1e-3, 100))


@st.composite
def strategy(draw, tier):
    hyper = {"tau": draw(HYPER), "alpha": draw(HYPER), "default": draw(st.integers(0, 4)) == 0}
    kind = draw(st.integers(0, 4))
    if kind == 0:
        k = draw(st.integers(2, 5))
        m = draw(st.integers(1, 5))
        size = draw(st.sampled_from([2, 40, 2000, 10 ** 5]))
        return dict(hyper, kind="direct", k=k,
                    offdiag=draw(st.lists(st.lists(st.lists(st.integers(0, size), min_size=k - 1, max_size=k - 1),
                                                   min_size=k, max_size=k), min_size=m, max_size=m)),
                    times=draw(st.lists(st.lists(st.one_of(st.just(0.0), st.integers(0, 2 ** 24).map(lambda v: v / 256)),
                                                 min_size=k, max_size=k), min_size=m, max_size=m)))
    d = draw(gen.data(max_vars=5, max_card=4, big=8) if kind < 3 else gen.sim(min_vars=1, max_vars=5, max_card=4))
    n = len(d["cards"])
    child = draw(st.integers(0, n - 1))
    ps = draw(gen.parents_of(n, child, 4))
    while ps and math.prod(d["cards"][p] for p in ps) > 300:
        ps = ps[:-1]
    return dict(hyper, kind="data", d=d, child=child, parents=ps)


def run(case, stats):
    from .. import sutkit
    tau, alpha = (0.1, 1) if case["default"] else (case["tau"], case["alpha"])
    calc = sutkit.FamScoreCalculator()
    if case["kind"] == "direct":
        k = case["k"]
        Ms = [[list(row[:x]) + [sum(row)] + list(row[x:]) for x, row in enumerate(rows)] for rows in case["offdiag"]]
        Ts = case["times"]
        table = {(i,): (T, M) for i, (T, M) in enumerate(zip(Ts, Ms))}
        with sut("score of given statistics"):
            s = sutkit.SetOfCims(node_id="n", parents_states_number=[len(Ts)], node_states_number=k,
                                 p_combs=np.arange(len(Ts)).reshape(-1, 1))
            s.build_cims(np.array(Ts, dtype=float), np.array(Ms, dtype=np.int64))
            got = calc.get_fam_score(s.actual_cims) if case["default"] else \
                calc.get_fam_score(s.actual_cims, tau_xu=tau, alpha_xu=alpha)
        want, scale = reference(table, tau, alpha)
        close(got, want, scale, "score of given statistics", tau, alpha)
        stats.label("direct")
        stats.mark(any(v for M in Ms for r in M for v in r))
        return
    d = gen.expand(case["d"])
    child, ps = case["child"], case["parents"]
    table = ref.stats(d, child, ps)
    want, scale = reference(table, tau, alpha)
    chain = ref.predictive_score(d, child, ps, tau, alpha)
    assert abs(chain - want) <= 1e-8 * (1 + scale), (chain, want)
    with sut("score of a family"):
        s = sutkit.sample_path(d)
        est = sutkit.StructureScoreBasedEstimator(sample_path=s) if case["default"] else \
            sutkit.StructureScoreBasedEstimator(sample_path=s, tau_xu=tau, alpha_xu=alpha)
        got = est.get_score_from_graph(sutkit.family_graph(d, child, ps), d["labels"][child])
    close(got, want, scale, "score of %s" % d["labels"][child], tau, alpha)
    close(got, chain, scale, "score of %s, against the chain of predictive densities" % d["labels"][child], tau, alpha, 1e-9)
    stats.label("parents=%d" % len(ps), "states=%d" % d["cards"][child],
                "unvisited contexts" if ref.visited(table) < len(table) else "all contexts visited")
    stats.mark(sum(M[x][x] for _, M in table.values() for x in range(len(M))) > 0)


def reference(table, tau, alpha):
    """The score and the size of what cancels in it."""
    scale = 0.0
    for T, M in table.values():
        for x in range(len(T)):
            m = M[x][x]
            scale += abs(math.lgamma(alpha + 1 + m)) + abs((alpha + 1 + m) * math.log(tau + T[x])) + \
                abs(math.lgamma(alpha)) + abs((alpha + 1) * math.log(tau))
    return ref.family_score(table, tau, alpha), scale


def close(got, want, scale, what, tau, alpha, rel=1e-13):
    g = float(np.real(got))
    check(np.imag(got) == 0 and math.isfinite(g), what + ": not a finite number", got=got)
    check(abs(g - want) <= 1e-9 + rel * scale, what, got=g, want=want, tau=tau, alpha=alpha)
