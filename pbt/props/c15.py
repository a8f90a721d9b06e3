from hypothesis import strategies as st
import copy
import math
import numpy as np
from .. import gen, ref
from ..core import check, sut
from .c14 import reference, HYPER

KINDS = ["trajectories", "names", "variables", "states", "parents order", "split", "other edges"]


@st.composite
def strategy(draw, tier):
    d = draw(st.one_of(gen.data(max_vars=6, max_card=4, big=6, max_trajs=5),
                       gen.sim(min_vars=2, max_vars=5, max_card=4, max_steps=200)))
    n = len(d["cards"])
    if draw(st.integers(0, 3)) == 0:
        d["labels"] = list(draw(st.permutations(["a", "bc", "ab", "c", "b", "abc"])))[:n]
        d["time"] = "Time"
    child = draw(st.integers(0, n - 1))
    ps = draw(gen.parents_of(n, child, 4))
    while ps and math.prod(d["cards"][p] for p in ps) > 300:
        ps = ps[:-1]
    return {"d": d, "child": child, "parents": ps, "tau": draw(HYPER), "alpha": draw(HYPER),
            "changes": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4)),
            "names": draw(gen.labels(n)), "perm": list(draw(st.permutations(range(n)))),
            "codes": [list(draw(st.permutations(range(c)))) for c in d["cards"]],
            "seed": draw(st.integers(0, 2 ** 16)), "others": draw(gen.edge_indices(n, 2)),
            "queries": draw(st.sampled_from([2, 2, 8, 20]))}


def permuted(d, perm):
    """perm[k] = new position of variable k."""
    out = copy.deepcopy(d)
    n = len(perm)
    for key in ("labels", "cards"):
        for k in range(n):
            out[key][perm[k]] = d[key][k]
    for a, b in zip(out["trajs"], d["trajs"]):
        for i, x in enumerate(b["x"]):
            for k in range(n):
                a["x"][i][perm[k]] = x[k]
    return out


def recoded(d, codes):
    out = copy.deepcopy(d)
    for tr in out["trajs"]:
        tr["x"] = [[codes[j][v] if v >= 0 else v for j, v in enumerate(x)] for x in tr["x"]]
    return out


def split(d, rng):
    out = copy.deepcopy(d)
    for tr in out["trajs"]:
        if len(tr["t"]) < 2:
            continue
        for _ in range(int(rng.randint(1, 4))):
            k = int(rng.randint(len(tr["t"]) - 1))
            a, b = tr["t"][k], tr["t"][k + 1]
            tr["t"].insert(k + 1, a + int(rng.randint(0, b - a + 1)))
            tr["x"].insert(k + 1, list(tr["x"][k]))
    return out


def transform(d, changes, case, rng):
    """The changed data set and where each variable went."""
    n = len(d["cards"])
    where = list(range(n))
    for c in changes:
        if c == "trajectories":
            d = dict(d, trajs=[d["trajs"][i] for i in rng.permutation(len(d["trajs"]))])
        elif c == "names":
            names = [l if l != d["time"] else l + "_" for l in case["names"]]
            d = dict(d, labels=names)
        elif c == "variables":
            d = permuted(d, case["perm"])
            where = [case["perm"][w] for w in where]
        elif c == "states":
            codes = [None] * n
            for k in range(n):
                codes[where[k]] = case["codes"][k]
            d = recoded(d, codes)
        elif c == "split":
            d = split(d, rng)
    return d, where


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    d = {k: v for k, v in d.items() if k != "rates"}
    child, ps = case["child"], case["parents"]
    n = len(d["cards"])
    rng = np.random.RandomState(case["seed"])
    tol = 1e-9 * (1 + reference(ref.stats(d, child, ps), case["tau"], case["alpha"])[1])

    def estimator(data):
        return sutkit.StructureScoreBasedEstimator(sample_path=sutkit.sample_path(data), tau_xu=case["tau"],
                                                   alpha_xu=case["alpha"])

    def value(est, data, c, parents, more=()):
        return float(np.real(est.get_score_from_graph(sutkit.family_graph(data, c, parents, more), data["labels"][c])))
    with sut("score"):
        est = estimator(d)
        base = value(est, d, child, ps)
    d2, where = transform(d, case["changes"], case, rng)
    ps2 = [where[p] for p in ps]
    if "parents order" in case["changes"]:
        ps2 = [ps2[i] for i in rng.permutation(len(ps2))]
    else:
        ps2 = sorted(ps2, key=where.index)
    more = [(where[a], where[b]) for a, b in case["others"] if b != child] if "other edges" in case["changes"] else ()
    with sut("score of the rewritten data"):
        est2 = estimator(d2)
        again = value(est2, d2, where[child], ps2, more)
    check(abs(base - again) <= tol, "the score depends on how the data are written: %s" % case["changes"], before=base,
          after=again, child=d["labels"][child], parents=[d["labels"][p] for p in ps])
    # other families in between, and the same one twice, on one estimator
    asked = []
    with sut("scores of other families"):
        for q in range(case.get("queries", 2)):
            c = child if rng.randint(2) else int(rng.randint(n))
            others = [v for v in range(n) if v != c]
            fam = [int(v) for v in rng.permutation(others)[:int(rng.randint(0, 4))]]
            if math.prod(d["cards"][p] for p in fam) > 100:
                continue
            if rng.randint(2):
                asked.append((c, fam, value(est, d, c, fam)))
            else:
                # as the searches do: a graph without structure edges, to which edges are added
                g = sutkit.family_graph(d, c, [])
                g.add_nodes(list(d["labels"]))
                for p in fam:
                    g.add_edges([(d["labels"][p], d["labels"][c])])
                asked.append((c, fam, float(np.real(est.get_score_from_graph(g, d["labels"][c])))))
        third = value(est, d, child, ps)
    for c, fam, v in asked:
        want, scale = reference(ref.stats(d, c, fam), case["tau"], case["alpha"])
        check(abs(v - want) <= 1e-9 * (1 + scale), "score of a family among others", child=d["labels"][c],
              parents=[d["labels"][p] for p in fam], got=v, want=want,
              before=[(d["labels"][a], [d["labels"][p] for p in b]) for a, b, _ in asked])
    check(third == base or abs(third - base) <= tol, "the score changed after other scores", before=base, after=third)
    # one graph, edges added, removed and exchanged, as the searches do
    with sut("score after adding and removing parents"):
        g = sutkit.family_graph(d, child, [])
        g.add_nodes(list(d["labels"]))
        L = d["labels"]
        g.add_edges([(L[p], L[child]) for p in ps])
        now, walk = set(ps), []
        for _ in range(int(rng.randint(2, 7))):
            before = set(now)
            out = [v for v in range(n) if v != child and v not in now]
            move = rng.randint(3)
            if now and (move != 0 or not out):
                v = sorted(now)[rng.randint(len(now))]
                g.remove_edges([(L[v], L[child])])
                now.discard(v)
            if out and (move != 1 or not before):
                v = out[rng.randint(len(out))]
                if math.prod(d["cards"][p] for p in now | {v}) <= 300:
                    g.add_edges([(L[v], L[child])])
                    now.add(v)
            walk.append((sorted(now), float(np.real(est.get_score_from_graph(g, L[child])))))
    for i, (fam, v) in enumerate(walk):
        want, scale = reference(ref.stats(d, child, fam), case["tau"], case["alpha"])
        check(abs(v - want) <= 1e-9 * (1 + scale), "score on a graph whose edges were changed", child=L[child], got=v, want=want,
              families=[[L[p] for p in f] for f, _ in walk[:i + 1]])
    stats.label(*case["changes"])
    stats.label("parents=%d" % len(ps))
    stats.mark(len(ps) > 0 and any(a[child] != b[child] for _, a, b in ref.intervals(d)))
