from hypothesis import strategies as st
import itertools
import math
import numpy as np
from .. import gen, ref
from ..core import check, sut
from .c01 import compare


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(0, 6))
    big = draw(st.integers(0, 4)) == 0
    cs = [draw(st.integers(2, 12 if big else 4)) for _ in range(n)]
    if draw(st.integers(0, 11)) == 0:
        cs = draw(st.sampled_from([[130], [257], [128, 2], [2, 129], [300, 3], [3, 256], [2, 300, 2], [2] * 11, [70, 41]]))
        n = len(cs)
    while cs and math.prod(cs) > 3000:
        cs = cs[:-1]
    k = draw(st.integers(2, 4))
    n = len(cs)
    extra = draw(st.integers(0, 2))
    total = n + 1 + extra
    perm = draw(st.permutations(range(total)))
    return {"cards": cs, "child_card": k, "extra": extra, "perm": list(perm),
            "labels": draw(gen.labels(total)),
            "order": list(draw(st.permutations(range(n)))) if n else [],
            "queries": draw(st.lists(st.tuples(st.lists(st.booleans(), min_size=n, max_size=n),
                                               st.lists(st.integers(0, 299), min_size=n, max_size=n),
                                               st.integers(0, 2)), max_size=8)),
            "seed": draw(st.integers(0, 2 ** 16))}


def run(case, stats):
    from .. import sutkit
    cs, k = case["cards"], case["child_card"]
    n = len(cs)
    want = list(itertools.product(*[range(c) for c in cs]))
    # the static list of combinations
    with sut("build_p_comb_structure_for_a_node"):
        combs = sutkit.NetworkGraph.build_p_comb_structure_for_a_node(list(cs))
    check(combs.shape == (len(want), n), "shape of the combinations", got=combs.shape, want=(len(want), n))
    check(sorted(map(tuple, combs.tolist())) == want, "the combinations are not every joint state exactly once",
          got=combs.tolist()[:40])
    # a data set with one visit of its own length per joint state, variables in a shuffled order
    total = n + 1 + case["extra"]
    perm = case["perm"]            # perm[k] = position of variable k; parents are 0..n-1, the child is n
    cards = [0] * total
    for v, pos in enumerate(perm):
        cards[pos] = cs[v] if v < n else k if v == n else 2
    child = perm[n]
    parents = sorted(perm[v] for v in range(n))
    rng = np.random.RandomState(case["seed"])
    rows, t, now = [], [], 0
    for i, comb in enumerate(itertools.product(*[range(cards[p]) for p in parents])):
        x = [int(rng.randint(c)) for c in cards]
        for p, v in zip(parents, comb):
            x[p] = v
        for s in rng.permutation(k)[:1 + i % 2]:
            x[child] = int(s)
            rows.append(list(x))
            t.append(now)
            now += 1 + int(rng.randint(1, 50)) + (i % 7)
    rows.append(list(rows[-1]))
    t.append(now)
    d = {"labels": case["labels"], "cards": cards, "time": "the time", "unit": 0, "trajs": [{"t": t, "x": rows}]}
    edges = [[perm[v], child] for v in case["order"]]
    with sut("import and estimation"):
        s = sutkit.sample_path(d, edges)
        sofc, g = sutkit.set_of_cims(s, d["labels"][child])
    compare(d, child, parents, sofc, "matrices of %s" % d["labels"][child])
    # parents in variable order, with their own columns and cardinalities
    with sut("get_ordered_by_indx_set_of_parents"):
        info = g.get_ordered_by_indx_set_of_parents(d["labels"][child])
    check([str(l) for l in info[0]] == [d["labels"][p] for p in parents] and [int(i) for i in info[1]] == parents and
          [int(c) for c in info[2]] == [cards[p] for p in parents], "parents are not in variable order", got=info)
    allc, cims = sutkit.by_comb(sofc, n)
    with sut("get_cims_number"):
        check(sofc.get_cims_number() == len(want), "number of cims", got=sofc.get_cims_number())
    # selection
    own = [sutkit.ConditionalIntensityMatrix(cim=np.full((k, k), float(i))) for i in range(len(want))]
    own_set = sutkit.SetOfCims(node_id="n", parents_states_number=list(cs), node_states_number=k, p_combs=combs,
                               cims=own if case["seed"] % 2 else np.array(own))
    pc = np.asarray(sofc.p_combs)
    full = 0
    for mask, vals, form in case["queries"] + [[[True] * n, [0] * n, 0], [[False] * n, [0] * n, 1]]:
        for source, table, cc in ((sofc, pc, [cards[p] for p in parents]), (own_set, np.asarray(combs), cs)):
            comb = [v % c for v, c, m in zip(vals, cc, mask) if m]
            arg = [comb, np.array(comb, dtype=int), tuple(comb)][form]
            with sut("filter_cims_with_mask"):
                res = source.filter_cims_with_mask(np.array(mask, dtype=bool), arg)
            every = list(source.actual_cims)
            if n <= 1:
                exp = every
            else:
                exp = [c for c, row in zip(every, table.tolist()) if [v for v, m in zip(row, mask) if m] == comb]
            check(len(res) == len(exp) and all(a is b for a, b in zip(res, exp)), "wrong selection", mask=mask,
                  values=comb, got=len(res), want=len(exp))
            if 0 < sum(mask) < n:
                full += 1
    stats.label("parents=%d" % n, "mixed" if len(set(cs)) > 1 else "equal", "combinations<=%d" % (10 ** len(str(len(want)))))
    stats.mark(n >= 2 and len(set(cs)) > 1)
