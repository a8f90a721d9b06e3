from hypothesis import strategies as st
import math
import numpy as np
from fractions import Fraction
from .. import gen, ref
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        d = draw(gen.data(max_vars=5, max_card=4, big=8, max_steps=30))
        n = len(d["cards"])
        child = draw(st.integers(0, n - 1))
        ps = draw(gen.parents_of(n, child, 3))
        while ps and math.prod(d["cards"][p] for p in ps) > 600:
            ps = ps[:-1]
        return {"kind": "data", "d": d, "child": child, "parents": ps}
    k = draw(st.integers(2, 6))
    m = draw(st.integers(1, 6))
    size = draw(st.sampled_from([1, 3, 50, 10 ** 6]))
    return {"kind": "direct", "k": k, "offdiag": draw(st.lists(
        st.lists(st.lists(st.integers(0, size), min_size=k - 1, max_size=k - 1), min_size=k, max_size=k),
        min_size=m, max_size=m)),
        "times": draw(st.lists(st.lists(st.one_of(st.just(0.0), st.integers(0, 2 ** 20).map(lambda v: v / 64),
                                                  st.floats(0, 1e6, allow_nan=False)), min_size=k, max_size=k),
                               min_size=m, max_size=m)),
        "route": draw(st.sampled_from(["cim", "set"]))}


def formula(cim, T, M, what):
    k = len(T)
    q = np.asarray(cim.cim)
    check(q.shape == (k, k), what + ": shape", got=q.shape)
    for x in range(k):
        for y in range(k):
            w = (Fraction(-M[x][x] if x == y else M[x][y]) + 1) / (Fraction(T[x]) + 1)
            g = float(q[x, y])
            check(math.isfinite(g) and abs(g - float(w)) <= 1e-11 * max(1.0, abs(float(w))), what + ": coefficient",
                  pair=(x, y), got=g, want=float(w), departures=M[x][x], count=M[x][y], time=T[x])
    t, m = np.asarray(cim.state_residence_times), np.asarray(cim.state_transition_matrix)
    check([float(v) for v in t] == [float(v) for v in T] or np.allclose(t, T, rtol=1e-9, atol=1e-9),
          what + ": times changed", got=t.tolist(), want=T)
    check((m == np.array(M)).all(), what + ": counts changed", got=m.tolist(), want=M)


def run(case, stats):
    from .. import sutkit
    if case["kind"] == "data":
        d = case["d"]
        with sut("estimation"):
            s = sutkit.sample_path(d)
            sofc = sutkit.family_cims(s, d, case["child"], case["parents"])
        combs, cims = sutkit.by_comb(sofc, len(case["parents"]))
        want = ref.stats(d, case["child"], case["parents"])
        check(sorted(combs) == sorted(want) and len(cims) == len(combs), "combinations", got=combs)
        for comb, cim in zip(combs, cims):
            formula(cim, *want[comb], what="comb %s" % (comb,))
        stats.label("data", "unvisited" if ref.visited(want) < len(want) else "all visited")
        stats.mark(any(M[x][x] for _, M in want.values() for x in range(len(M))))
        return
    k = case["k"]
    Ms = []
    for rows in case["offdiag"]:
        M = []
        for x, row in enumerate(rows):
            M.append(list(row[:x]) + [sum(row)] + list(row[x:]))
        Ms.append(M)
    Ts = case["times"]
    t_arr, m_arr = np.array(Ts, dtype=float), np.array(Ms, dtype=np.int64)
    t_copy, m_copy = t_arr.copy(), m_arr.copy()
    if case["route"] == "set":
        with sut("SetOfCims.build_cims"):
            sofc = sutkit.SetOfCims(node_id="n", parents_states_number=[len(Ts)], node_states_number=k,
                                    p_combs=np.arange(len(Ts)).reshape(-1, 1))
            sofc.build_cims(t_arr, m_arr)
            cims = list(sofc.actual_cims)
        check(len(cims) == len(Ts), "number of cims", got=len(cims), want=len(Ts))
    else:
        cims = []
        with sut("ConditionalIntensityMatrix"):
            for t, m in zip(t_arr, m_arr):
                c = sutkit.ConditionalIntensityMatrix(state_residence_times=t, state_transition_matrix=m)
                c.compute_cim_coefficients()
                cims.append(c)
    for cim, T, M in zip(cims, Ts, Ms):
        formula(cim, T, M, "matrix")
    check((t_arr == t_copy).all() and (m_arr == m_copy).all(), "the arrays passed in were changed")
    stats.label(case["route"], "k=%d" % k)
    stats.mark(any(v for M in Ms for r in M for v in r))
