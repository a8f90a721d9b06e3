from hypothesis import strategies as st
import math
import random
import numpy as np
from .. import gen, nets
from ..core import check, sut

POWERS = [0.0, 0.25, 0.5, 0.7, 0.85, 0.93, 1.07, 1.15, 1.4, 2.0, 4.0]
GRID = [s * l for l in (0.02, 0.04, 0.08, 0.15, 0.3, 0.6, 1.2, 2.5) for s in (1, -1)]
# a false alarm of one group has probability below 2e-11
LIMIT = math.log(len(GRID) / 2e-11)


@st.composite
def strategy(draw, tier):
    kind = draw(st.integers(0, 9))
    if kind == 1:
        # a variable with four or more parents, which all matter
        nt = draw(nets.net(sizes=[5, 6], max_card=2, max_parents=1, max_matrices=80))
        n = len(nt["labels"])
        nt["make"] = "own"
        nt["constant"] = nt["whole"] = False
        nt["strength"] = draw(st.sampled_from([30, 100]))
        order = list(draw(st.permutations(range(n))))
        nt["edges"] = [[i, order[0]] for i in order[1:1 + draw(st.integers(4, n - 1))]]
        nt["weights"] = [2 if i == order[0] else 1 for i in range(n)]
    elif kind == 0:
        nt = draw(nets.net(sizes=[8, 13, 14, 16], max_card=2, max_parents=2, max_matrices=60))
        nt["make"] = "own"
        nt["strength"] = 30
        # most of the changes happen to one pair of variables, anywhere in the network
        n = len(nt["labels"])
        child = draw(st.sampled_from([n - 1, n - 1, n - 2, draw(st.integers(0, n - 1))]))
        parent = draw(st.sampled_from([i for i in range(n) if i != child]))
        nt["edges"] = [e for e in nt["edges"] if e[1] not in (child, parent)] + [[parent, child]]
        nt["weights"] = [1 if i == child else 0.3 if i == parent else 0.02 for i in range(n)]
        nt["constant"] = nt["whole"] = False
        nt["strength"] = draw(st.sampled_from([30, 100]))
    elif kind == 2:
        # a long trajectory, most of it changes of one variable
        nt = draw(nets.net(max_vars=4, max_card=4, max_parents=3, max_matrices=40))
        n = len(nt["labels"])
        nt["make"], nt["zeros"] = "own", 0
        child = draw(st.integers(0, n - 1))
        nt["cards"][child] = draw(st.sampled_from([2, 3, 4]))
        nt["edges"] = [e for e in nt["edges"] if e[1] != child] + [[i, child] for i in range(n) if i != child]
        nt["weights"] = [1 if i == child else 0.2 for i in range(n)]
    else:
        nt = draw(nets.net(max_vars=4, max_card=4, big=6, max_parents=3, max_matrices=40))
    nt["sharp"] = draw(st.sampled_from([1, 1, 3, 6]))
    # fast networks: the times have four decimals, so that total rates up to about a thousand can be judged
    nt["speed"] = min(draw(st.sampled_from([1, 1, 1, 20, 300])), 1500 / (nt["hi"] * len(nt["cards"])))
    return {"net": nt, "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "lengths": [5000] if kind == 2 else draw(st.sampled_from([[700], [1000], [400, 400], [250, 250, 250], [60] * 10]))}


class Groups:
    """Sums of log moment generating functions over predictable groups of draws."""

    def __init__(self):
        self.bern, self.expo, self.temp = {}, {}, {}

    def bernoulli(self, keys, p, hit):
        terms = [l * hit - math.log1p(p * math.expm1(l)) for l in GRID]
        for k in keys:
            g = self.bern.setdefault(k, [0, 0.0, 0, [0.0] * len(GRID)])
            g[0] += 1
            g[1] += p
            g[2] += hit
            g[3] = [a + b for a, b in zip(g[3], terms)]

    def exponential(self, keys, e, slack):
        # times are rounded to four decimals: `slack` bounds what that can change
        terms = [l * e + math.log1p(-l) - abs(l) * slack if l < 0.9 else -math.inf for l in GRID]
        for k in keys:
            g = self.expo.setdefault(k, [0, 0.0, [0.0] * len(GRID)])
            g[0] += 1
            g[1] += e
            g[2] = [a + b for a, b in zip(g[2], terms)]

    def surprise(self, keys, p, hit):
        """Likelihood ratios of the flattened and sharpened distributions p^b / sum p^b."""
        p = [v for v in p if v > 0], p[hit]
        terms = [(b - 1) * math.log(p[1]) - math.log(sum(v ** b for v in p[0])) for b in POWERS]
        for k in keys:
            g = self.temp.setdefault(k, [0, 0.0, 0.0, [0.0] * len(POWERS)])
            g[0] += 1
            g[1] -= math.log(p[1])
            g[2] -= sum(v * math.log(v) for v in p[0])
            g[3] = [a + b for a, b in zip(g[3], terms)]

    def judge(self, L):
        for k, (n, got, want, m) in self.temp.items():
            check(max(m) <= LIMIT, "surprise of %s" % (k,), total=round(got, 2), expected=round(want, 2), draws=n)
        for k, (n, want, got, m) in self.bern.items():
            check(max(m) <= LIMIT, "frequency of %s" % (k,), times=got, expected=round(want, 2), draws=n)
        for k, (n, total, m) in self.expo.items():
            check(max(m) <= LIMIT, "waiting times, in units of their mean, %s" % (k,), total=round(total, 2), intervals=n)


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    n = len(L)
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    with sut("TrajectoryGenerator"):
        tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    g = Groups()
    total = 0
    for length in case["lengths"]:
        with sut("CTBN_Sample"):
            tr = tg.CTBN_Sample(max_tr=length)
        t, x = nets.inspect(tr, L, C, rates)
        last = None
        for k in range(len(t) - 1):
            a = x[k]
            ex = nets.exits(rates, a)
            Q = sum(ex)
            since = "first" if last is None else "after " + L[last]
            ctx = [tuple(a[p] for p in rates[j][0]) for j in range(n)]
            times = ["all", since] + [(L[j], ctx[j], a[j]) for j in range(n)] + [(since, L[j], ctx[j]) for j in range(n)
                                                                               if last in rates[j][0]]
            g.exponential(times, (t[k + 1] - t[k]) * Q, 1.01e-4 * Q)
            if k == len(t) - 2:
                break
            total += 1
            j = [i for i in range(n) if x[k + 1][i] != a[i]][0]
            for i in range(n):
                keys = [("change of", L[i]), ("change of", L[i], "from", a[i], "parents", ctx[i])]
                if last is not None:
                    rel = "itself" if last == i else "a parent" if last in rates[i][0] else "another"
                    keys += [("change of", L[i], "after a change of", rel),
                             ("change of", L[i], "after a change of", L[last]),
                             ("change of", L[i], "from", a[i], "parents", ctx[i], "after a change of", rel)]
                g.bernoulli(keys, ex[i] / Q, int(i == j))
            g.surprise(["the variable that changes", ("the variable that changes", since)], [e / Q for e in ex], j)
            r = nets.row(rates, j, a)
            tot = sum(r[v] for v in range(C[j]) if v != a[j])
            if C[j] > 2:
                g.surprise(["destinations", ("destinations of", L[j]), ("destinations of", L[j], "from", a[j]),
                            ("destinations with parents", len(ctx[j])), ("destinations, states", C[j]),
                            ("destinations of", L[j], "parents", ctx[j])],
                           [r[v] / tot if v != a[j] else 0.0 for v in range(C[j])], x[k + 1][j])
            for v in range(C[j]):
                if v != a[j]:
                    g.bernoulli([("destination", v, "of", L[j]), ("destination", v, "of", L[j], "from", a[j]),
                                 ("destination", v, "of", L[j], "from", a[j], "parents", ctx[j])],
                                min(1.0, r[v] / tot), int(x[k + 1][j] == v))
            last = j
    g.judge(L)
    stats.label(nt["make"], "variables=%d" % n, "parents=%d" % max(len(p) for p, _ in rates),
                "strength=%d" % nt["strength"])
    stats.mark(len(edges) > 0 and total > 100)
