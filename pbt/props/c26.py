from hypothesis import strategies as st
import itertools
import numpy as np
from .. import gen
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 9))
    names = draw(gen.labels(n))
    universe = draw(st.sampled_from([names, ["A", "B", "AB", "BA", "C", "ABC", ""], ["1", "2", "12", "21", "1,2", "2,1"]]))
    subset = st.lists(st.integers(0, len(universe) - 1), max_size=len(universe), unique=True)
    pool = draw(st.lists(subset, min_size=1, max_size=8))
    known = st.integers(0, 7).map(lambda k: pool[k % len(pool)])
    pick = st.one_of(known, known, known, subset,
                     st.tuples(st.integers(0, 7), st.integers(0, len(universe) - 1)).map(
                         lambda p: sorted(set(pool[p[0] % len(pool)]) ^ {p[1]})))
    size = draw(st.integers(1, 30))
    put, find = st.tuples(st.just("put"), pick), st.tuples(st.just("find"), pick)
    ops = draw(st.lists(st.one_of(put, put, find, find, find, find,
                                  st.tuples(st.sampled_from(["clear", "check", "check"]), st.just([]))),
                        min_size=size, max_size=size))
    # many sets in one cache: every subset of the universe up to some size, then lookups
    many = draw(st.integers(0, 9)) == 0
    if many:
        k = draw(st.integers(0, len(universe)))
        ops = [["put", list(c)] for r in range(k + 1) for c in itertools.combinations(range(len(universe)), r)] + \
            [["check", []]] + ops
    return {"universe": universe, "ops": ops, "real": draw(st.booleans()), "np": draw(st.booleans())}


def run(case, stats):
    from .. import sutkit
    U = case["universe"]
    model = {}
    with sut("Cache"):
        cache = sutkit.Cache()
        other = sutkit.Cache()
        other_value = sutkit.SetOfCims("o", [], 2, np.array([[]]))
        other.put({"o"}, other_value)

    def as_set(idx):
        out = set()
        for i in idx:
            out.add(str(np.str_(U[i])) if not case["np"] else np.str_(U[i]))
        return out

    def look(idx):
        key = frozenset(U[i] for i in idx)
        with sut("find"):
            got = cache.find(as_set(idx))
        if key in model:
            check(any(got is v for v in model[key]), "the wrong object for a stored set" if got is not None else
                  "nothing for a stored set", parents=sorted(key), got=got)
        else:
            check(got is None, "an object for a set that was not stored", parents=sorted(key),
                  stored=[sorted(k) for k in model], got=got)
        return key in model
    hits = misses = clears = 0
    for name, idx in case["ops"]:
        if name == "put":
            v = sutkit.SetOfCims("n", [2] * len(idx), 2, np.zeros((1, len(idx))))
            with sut("put"):
                cache.put(as_set(idx), v)
            # which of two objects stored for one set is returned is not specified
            model.setdefault(frozenset(U[i] for i in idx), []).append(v)
        elif name == "find":
            if look(idx):
                hits += 1
            else:
                misses += 1
            look(idx[::-1])
        elif name == "clear":
            with sut("clear"):
                cache.clear()
            model.clear()
            clears += 1
        else:
            index = {u: i for i, u in enumerate(U)}
            for key in list(model):
                look([index[u] for u in sorted(key)])
    check(other.find({"o"}) is other_value and other.find({"o", "p"}) is None and other.find(set()) is None,
          "another cache changed")
    stats.label("sets<=%d" % (10 * ((len(model) + 9) // 10)))
    stats.label("hits=%d" % min(hits, 5), "misses=%d" % min(misses, 5), "clears=%d" % min(clears, 3))
    stats.mark(hits > 0 and misses > 0 and len(model) + clears > 1)
