from hypothesis import strategies as st
import itertools
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut, Discard



@st.composite
def strategy(draw, tier):
    n = draw(st.integers(2, 4))
    wide = draw(st.integers(0, 4)) == 0
    if wide:
        n = draw(st.integers(5, 7))
    cs = [draw(st.sampled_from([2, 2, 3])) for _ in range(n)]
    if wide:
        cs = [min(c, 2) for c in cs]
    names = draw(gen.labels(n))
    pull = draw(st.booleans())
    # with "pull" the states of a child follow those of its parents, so that relatives that are not neighbours
    # depend on each other as long as nothing between them is conditioned upon
    edges = draw(gen.edge_indices(n, 2))
    if wide:
        # a few edges among many candidates
        keep = draw(st.integers(1, 3))
        edges = edges[:keep] or [[n - 2, n - 1]]
    if pull and n == 4 and draw(st.booleans()):
        order = draw(st.permutations(range(4)))
        edges = [[order[i], order[j]] for i, j in draw(st.sampled_from(
            [[(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)],
             [(0, 1), (1, 2), (2, 0), (2, 3)]]))]
    star = draw(st.integers(0, 9)) == 5
    if star:
        # four or five parents of one variable
        n, pull = draw(st.sampled_from([5, 5, 6])), False
        cs, names = [2] * n, draw(gen.labels(n))
        child = draw(st.integers(0, n - 1))
        edges = [[i, child] for i in draw(st.permutations([i for i in range(n) if i != child]))[:4]]
    kind = draw(st.sampled_from(["ctpc", "hill", "tabu"]))
    cfg = {"kind": kind}
    if kind == "ctpc":
        cfg.update(exp=draw(st.sampled_from([1e-6, 1e-8, 1e-10])), chi=draw(st.sampled_from([1e-6, 1e-8, 1e-10])),
                   thumb=draw(st.sampled_from([0, 2])))
    else:
        cfg.update(tau=draw(st.sampled_from([0.1, 1])), alpha=draw(st.sampled_from([1, 0.5])),
                   max_parents=draw(st.sampled_from([None, 2, 3])), iterations=100, patience=draw(st.sampled_from([None, 60])))
        if wide or star:
            cfg.update(iterations=250, patience=None)
        if star:
            cfg.update(max_parents=draw(st.sampled_from([None, None, 4, 5])))
        if kind == "tabu":
            cfg.update(tabu_length=draw(st.sampled_from([None, 1, 5])), tabu_duration=draw(st.sampled_from([None, 1, 5])))
    return {"labels": names, "cards": cs, "edges": edges, "time": draw(st.sampled_from(gen.TIME_KEYS).filter(
                lambda t: t not in names)),
            "pull": pull, "star": star,
            "factor": 3 if star else draw(st.sampled_from([5, 6])) if pull else draw(st.sampled_from([8, 12, 25])) if all(
                sum(e[1] == j for e in edges) < 2 for j in range(n)) else draw(st.sampled_from([5, 6])),
            "seed": draw(st.integers(0, 2 ** 20)), "cfg": cfg,
            "trajs": draw(st.integers(1, 2 if star else 4)), "close": draw(st.booleans())}


def strong_rates(rng, cs, edges, factor, pull, star=False):
    """Every parent multiplies exit rates of its child by the factor: all of them in some of its states, or (pull)
    those of the child's states on the other side (zero or not zero) than the parent's state."""
    out = []
    for j, c in enumerate(cs):
        ps = sorted(i for i, k in edges if k == j)
        high = []
        for p in ps:
            r = [int(rng.randint(2)) for _ in range(cs[p])]
            a, b = rng.choice(cs[p], 2, replace=False)
            r[a], r[b] = 0, 1
            high.append(r)
        base = rng.uniform(0.8, 1.25, c)
        dest = rng.uniform(0.5, 1, (c, c))
        np.fill_diagonal(dest, 0)
        dest /= dest.sum(1, keepdims=True)
        table = {}
        for comb in itertools.product(*[range(cs[p]) for p in ps]):
            if pull:
                e = base * np.array([factor ** sum(float((v > 0) != (x > 0)) for v in comb) for x in range(c)])
                e = e / factor ** (len(ps) / 2)
            else:
                e = base * factor ** sum(h[v] for h, v in zip(high, comb)) * (
                    0.3 / factor ** len(ps) if not star else factor ** (-len(ps) / 2) if ps else 0.5)
            q = dest * e[:, None]
            np.fill_diagonal(q, -e)
            table[comb] = q
        out.append((ps, table))
    return out


def run(case, stats):
    from .. import sutkit
    L, cs, edges, cfg = case["labels"], case["cards"], case["edges"], case["cfg"]
    n = len(L)
    rng = np.random.RandomState(case["seed"])
    rates = strong_rates(rng, cs, edges, case["factor"], case.get("pull", False), case.get("star", False))
    d = {"labels": L, "cards": cs, "time": case["time"], "unit": 4, "trajs": []}
    steps = 6000 if case.get("star") else 1500
    for _ in range(4):
        d["trajs"] += [gen.simulate(rng, cs, rates, steps // case["trajs"], case["close"], 4) for _ in range(case["trajs"])]
        steps *= 3
        if enough(d, edges, n, *([250, 100] if case.get("pull") else [40, 16] if case.get("star") else [60, 30])):
            break
    else:
        raise Discard("not enough data")
    with sut("learning"):
        s = sutkit.sample_path(d)
        est = learn.estimator(s, cfg)
        res = learn.pairs(learn.estimate(est, cfg, case["seed"]))
    true = {(L[i], L[j]) for i, j in edges}
    check(true <= res, "a strong dependency was not found", missing=true - res, learned=res, cfg=cfg)
    if cfg["kind"] == "ctpc":
        check(res <= true, "a dependency that does not exist was found", extra=res - true, true=true, cfg=cfg)
    stats.label(cfg["kind"], "four parents" if case.get("star") else "pull" if case.get("pull") else "speed", "edges=%d" % len(edges), "variables=%d" % n,
                "two parents" if any(len(p) > 1 for p, _ in rates) else "one parent at most",
                "cards %s" % ("mixed" if len(set(cs)) > 1 else cs[0]))
    stats.mark(bool(edges))


def enough(d, edges, n, own, more):
    """Every row of every matrix was left often, also when any one more parent is looked at."""
    a, b = [], []
    for tr in d["trajs"]:
        x = np.array(tr["x"])
        a.append(x[:-1])
        b.append(x[1:])
    a, b = np.concatenate(a), np.concatenate(b)
    for j in range(n):
        ps = [i for i, k in edges if k == j]
        left = a[(b[:, j] != -1) & (b[:, j] != a[:, j])]
        if least(left, d["cards"], [j] + ps) < own:
            return False
        if any(least(left, d["cards"], [j, v] + ps) < more for v in range(n) if v != j and v not in ps):
            return False
    return True


def least(left, cs, cols):
    count = np.zeros([cs[c] for c in cols], dtype=int)
    np.add.at(count, tuple(left[:, c] for c in cols), 1)
    return count.min()
