from hypothesis import strategies as st
import itertools
import math
import numpy as np
from .. import gen, ref
from ..core import check, sut


CASES = [{"d": d, "child": 0, "edges": [[i, 0] for i in range(1, len(d["cards"]))]} for n in (1, 2) for d in gen.large_series(n)]


@st.composite
def large_case(draw):
    d = draw(gen.large())
    n = len(d["cards"])
    child = draw(st.integers(0, n - 1))
    ps = [i for i in range(n) if i != child] if d["large"] in ("joint", "card") else draw(gen.parents_of(n, child, 3))
    while ps and (math.prod(d["cards"][p] for p in ps) * d["cards"][child] ** 2 > 600000 or
                  math.prod(d["cards"][p] for p in ps) > 40000):
        ps = ps[:-1]
    return {"d": d, "child": child, "edges": [[p, child] for p in draw(st.permutations(ps))]}


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 11)) == 0:
        return draw(large_case())
    kind = draw(st.integers(0, 9))
    if kind < 7:
        d = draw(gen.data(max_vars=7 if kind else 12, max_card=5, big=12, max_trajs=6, max_steps=40))
    elif kind < 9:
        d = draw(gen.sim(min_vars=1, max_vars=6, max_card=4, max_steps=300))
    else:
        d = draw(gen.sim(min_vars=2, max_vars=4, max_card=3, min_steps=500, max_steps=3000))
    n = len(d["cards"])
    child = draw(st.integers(0, n - 1))
    ps = draw(gen.parents_of(n, child, 5))
    while ps and math.prod(d["cards"][p] for p in ps) * d["cards"][child] ** 2 > 20000:
        ps = ps[:-1]
    edges = [[p, child] for p in ps]
    more = draw(gen.edge_indices(n, 2)) if draw(st.booleans()) else []
    edges += [e for e in more if e[1] != child]
    edges = [list(e) for e in draw(st.permutations(edges))]
    return {"d": d, "child": child, "edges": edges}


def compare(d, child, ps, sofc, what):
    from .. import sutkit
    want = ref.stats(d, child, ps)
    combs, cims = sutkit.by_comb(sofc, len(ps))
    check(sorted(combs) == sorted(want), what + ": parent combinations", got=combs)
    check(len(cims) == len(combs), what + ": number of matrices", got=len(cims), want=len(combs))
    k = d["cards"][child]
    got = {}
    for comb, cim in zip(combs, cims):
        T, M = want[comb]
        t = cim.state_residence_times
        m = cim.state_transition_matrix
        check(tuple(t.shape) == (k,) and tuple(m.shape) == (k, k), what + ": shapes", t=t.shape, m=m.shape)
        for x in range(k):
            check(abs(float(t[x]) - T[x]) <= 1e-9 * (1 + T[x]), what + ": residence time", parents=ps, comb=comb,
                  state=x, got=float(t[x]), want=T[x])
            for y in range(k):
                check(m[x, y] == M[x][y], what + ": transition count", parents=ps, comb=comb, pair=(x, y),
                      got=int(m[x, y]), want=M[x][y])
        got[comb] = (t, m)
    return got, want


def run_large(case, stats):
    """The same statistics, counted with array operations."""
    from .. import sutkit
    d, child = case["d"], case["child"]
    cs = d["cards"]
    k = cs[child]
    ps = sorted(i for i, _ in case["edges"])
    data = gen.arrays(d)
    with sut("import and estimation"):
        s = sutkit.path_of(sutkit.large_frames(d, data), d, case["edges"])
        sofc, _ = sutkit.set_of_cims(s, d["labels"][child])
    sizes = [cs[p] for p in ps]
    want_T = np.zeros(sizes + [k], dtype=np.int64)
    want_M = np.zeros(sizes + [k, k], dtype=np.int64)
    for t, x in data:
        a, b, dt = x[:-1], x[1:], np.diff(t)
        at = tuple(a[:, p] for p in ps) + (a[:, child],)
        np.add.at(want_T, at, dt)
        moved = (b[:, child] >= 0) & (b[:, child] != a[:, child])
        np.add.at(want_M, tuple(v[moved] for v in at) + (b[moved, child],), 1)
    want_T, want_M = want_T.reshape(-1, k), want_M.reshape(-1, k, k)
    diag = want_M.sum(axis=2)
    want_M[:, np.arange(k), np.arange(k)] = diag
    combs = np.asarray(sofc.p_combs)
    cims = list(sofc.actual_cims)
    check(combs.shape == (len(want_T), len(ps)) and len(cims) == len(want_T), "number of matrices", got=combs.shape,
          matrices=len(cims), want=len(want_T))
    if ps:
        check((combs >= 0).all() and (combs < np.array(sizes)).all(), "a parent state out of range")
        code = np.ravel_multi_index(tuple(combs.T.astype(np.int64)), sizes)
        check(len(np.unique(code)) == len(code), "a parent combination is repeated")
    else:
        code = np.zeros(1, dtype=np.int64)
    T = np.array([np.asarray(c.state_residence_times, dtype=float) for c in cims])
    M = np.array([np.asarray(c.state_transition_matrix) for c in cims])
    exact = want_T[code] * 2.0 ** -d["unit"]
    bad = np.argwhere(np.abs(T - exact) > 1e-9 * (1 + exact))
    check(len(bad) == 0, "residence times", wrong=len(bad), first=[int(v) for v in bad[0]] if len(bad) else None,
          got=float(T[tuple(bad[0])]) if len(bad) else None, want=float(exact[tuple(bad[0])]) if len(bad) else None)
    bad = np.argwhere(M != want_M[code])
    check(len(bad) == 0, "transition counts", wrong=len(bad), first=[int(v) for v in bad[0]] if len(bad) else None,
          got=int(M[tuple(bad[0])]) if len(bad) else None, want=int(want_M[code][tuple(bad[0])]) if len(bad) else None)
    stats.label("large: " + d["large"])
    stats.mark(want_M.sum() > 0)


def run(case, stats):
    from .. import sutkit
    if "large" in case["d"]:
        return run_large(case, stats)
    d = gen.expand(case["d"])
    child, edges = case["child"], case["edges"]
    ps = sorted(i for i, j in edges if j == child)
    label = d["labels"][child]
    with sut("import and estimation"):
        s = sutkit.sample_path(d, edges)
        sofc, _ = sutkit.set_of_cims(s, label)
    got, want = compare(d, child, ps, sofc, "statistics of %s" % label)
    total = math.fsum(float(v) for t, _ in got.values() for v in t)
    check(abs(total - ref.duration(d)) <= 1e-9 * (1 + total), "the times do not add up to the observed duration",
          got=total, want=ref.duration(d))
    if ps:
        # marginalisation over the last parent
        drop = ps[len(edges) % len(ps)]
        rest = [p for p in ps if p != drop]
        with sut("estimation without a parent"):
            sofc2 = sutkit.family_cims(s, d, child, rest)
        got2, _ = compare(d, child, rest, sofc2, "statistics without %s" % d["labels"][drop])
        at = ps.index(drop)
        for comb, (t, m) in got2.items():
            full = [got[comb[:at] + (v,) + comb[at:]] for v in range(d["cards"][drop])]
            check(abs(sum(f[0] for f in full) - t).max() <= 1e-9 * (1 + t.max()) and (sum(f[1] for f in full) == m).all(),
                  "summing over a parent does not give the statistics without it", comb=comb)
    moves = sum(M[x][x] for _, M in want.values() for x in range(len(M)))
    stats.label("parents=%d" % len(ps), "child states=%d" % min(d["cards"][child], 6),
                "mixed cards" if len(set(d["cards"])) > 1 else "equal cards",
                "closing row" if any(t["x"][-1][0] == -1 for t in d["trajs"]) else "no closing row",
                "trajectories=%d" % min(len(d["trajs"]), 4))
    stats.mark(bool(ps) and moves > 0 and ref.visited(want) > 1)
