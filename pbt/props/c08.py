from hypothesis import strategies as st
import itertools
import math
import numpy as np
import random
from .. import gen
from ..core import check, sut, Discard


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 8))
    cs = draw(gen.cards(n, 4, big=12))
    lo = draw(st.one_of(st.sampled_from([1, 0.5, 2, 3, 0.01, 10]), st.floats(0.01, 50)))
    width = draw(st.one_of(st.sampled_from([0, 1, 2, 7]), st.floats(0, 50)))
    # what one generator is asked for, one after the other: a new graph (density) or only new matrices (None)
    rounds = draw(st.lists(st.tuples(st.sampled_from([None, None, 0, 0.2, 0.4, 0.7, 1]),
                                     st.sampled_from([1, 1, 0.5, 3]), st.sampled_from([0, 0, 2])), max_size=3))
    return {"labels": draw(gen.labels(n)), "cards": cs, "lo": lo, "hi": lo + width,
            "density": draw(st.sampled_from([0, 0.2, 0.4, 0.7, 1])), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "rounds": rounds}


def valid_network(ng, L, C, lo, hi):
    parents = {l: [] for l in L}
    es = {(str(a), str(b)) for a, b in ng.graph.edges}
    for l in L:
        parents[l] = [p for p in L if (p, l) in es]
    card = dict(zip(L, C))
    cims = ng.cims
    check(sorted(map(str, cims)) == sorted(L), "variables with intensities", got=list(cims))
    biggest = 0
    for l in L:
        combs = list(itertools.product(*[range(card[p]) for p in parents[l]]))
        biggest = max(biggest, len(parents[l]))
        s = cims[l]
        got = sorted(tuple(int(v) for v in row) for row in np.asarray(s.p_combs).reshape(-1, len(parents[l]))) \
            if parents[l] else [()]
        check(got == combs, "parent combinations", variable=l, got=got[:20])
        mats = list(s.actual_cims)
        check(len(mats) == len(combs), "number of matrices", variable=l, got=len(mats), want=len(combs))
        k = card[l]
        for m in mats:
            q = np.asarray(m.cim)
            check(q.shape == (k, k) and np.isfinite(q).all(), "shape of a matrix", variable=l, shape=q.shape)
            for x in range(k):
                off = [q[x, y] for y in range(k) if y != x]
                check(min(off) >= 0, "negative intensity", variable=l, row=q[x].tolist())
                check(abs(q[x].sum()) <= k * 0.5e-4 + 1e-9, "row sum", variable=l, row=q[x].tolist())
                check(lo - 0.51e-4 <= -q[x, x] <= hi + 0.51e-4, "exit rate out of range", variable=l, rate=-q[x, x],
                      range=(lo, hi))
                check(np.abs(q[x] * 1e4 - np.round(q[x] * 1e4)).max() < 1e-4, "not rounded to four decimals",
                      row=q[x].tolist())
    return biggest


def run(case, stats):
    from .. import sutkit
    L, C = case["labels"], case["cards"]
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    with sut("NetworkGenerator"):
        ng = sutkit.NetworkGenerator(list(L), list(C))
    card = dict(zip(L, C))
    biggest = 0
    lo, hi = case["lo"], case["hi"]
    for k, (density, factor, more) in enumerate([(case["density"], 1, 0)] + case["rounds"]):
        if density is not None:
            with sut("generate_graph"):
                ng.generate_graph(density)
        sizes = {l: 1 for l in L}
        for a, b in ng.graph.edges:
            sizes[b] *= card[a]
        if sum(sizes[l] * card[l] for l in L) > (6000 if k == 0 else 2000):
            if k == 0:
                raise Discard("too many matrices")
            break
        lo, hi = lo * factor, hi * factor + more
        with sut("generate_cims"):
            ng.generate_cims(lo, hi)
        biggest = max(biggest, valid_network(ng, L, C, lo, hi))
    stats.label("most parents=%d" % biggest, "states=%d" % max(C), "rounds=%d" % (1 + len(case["rounds"])))
    stats.mark(biggest > 0 and case["lo"] < case["hi"])
