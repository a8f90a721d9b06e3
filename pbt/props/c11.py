from hypothesis import strategies as st
import math
import random
import numpy as np
from .. import gen, nets
from ..core import check, sut


# one request that takes much longer than the others
CASES = [{"net": {"labels": ["A", "B", "C"], "cards": [2, 2, 3], "edges": [[0, 1], [1, 0]], "make": "own", "density": 0,
                  "lo": 1.0, "hi": 2.0, "strength": 1, "zeros": 0, "constant": False, "whole": False, "seed": 5},
          "seed": 11, "requests": [["n", [5, 6000, 12, 12]]], "array": False}]
# many requests at once
CASES += [dict(CASES[0], seed=12, requests=[["n", [7 + k % 5 for k in range(133)]]]),
          dict(CASES[0], seed=13, requests=[["t", [k % 9 for k in range(70)]], ["n", [8] * 70]])]


@st.composite
def strategy(draw, tier):
    nt = draw(nets.net(max_vars=4, max_card=4, max_parents=3, hi=(1.0, 2.0, 5.0)))
    nt["strength"] = 1
    req = st.one_of(
        st.tuples(st.just("n"), st.lists(st.one_of(st.integers(1, 40), st.integers(7, 12)), max_size=9)),
        st.tuples(st.just("t"), st.lists(st.one_of(st.integers(0, 60), st.just(25)), max_size=9)),
        st.tuples(st.just("n"), st.tuples(st.integers(7, 20), st.integers(1, 10)).map(lambda p: [p[0]] * p[1])),
        # nothing or hardly anything happens in these
        st.tuples(st.just("n"), st.lists(st.integers(0, 2), min_size=1, max_size=6)),
        st.tuples(st.just("t"), st.tuples(st.sampled_from([-0.499, -0.4, 0]), st.integers(1, 6)).map(
            lambda p: [p[0]] * p[1])),
        st.tuples(st.just("one"), st.integers(7, 30).map(lambda v: [v])))
    nt["speed"] = draw(st.sampled_from([1, 1, 20, 0.05, 300]))
    return {"net": nt, "seed": draw(st.integers(0, 2 ** 31 - 1)), "requests": draw(st.lists(req, min_size=1, max_size=3)),
            "array": draw(st.booleans())}


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    slow, fast = nets.slowest(rates), nets.fastest(rates)
    with sut("TrajectoryGenerator"):
        tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    paths = []
    age, ends, lasts = 0, 0.0, 0.0
    for r, (kind, sizes) in enumerate(case["requests"]):
        if kind == "one":
            with sut("CTBN_Sample"):
                res = [tg.CTBN_Sample(max_tr=sizes[0])]
            kind = "n"
        elif kind == "n":
            arg = np.array(sizes, dtype=int) if case["array"] else list(sizes)
            with sut("multi_trajectory(max_trs=%r)" % sizes):
                res = list(tg.multi_trajectory(max_trs=arg))
            check(list(arg) == sizes, "the list of requests was changed", got=list(arg))
        else:
            sizes = [(v + 0.5) / fast for v in sizes]
            arg = list(sizes)
            with sut("multi_trajectory(t_ends=%r)" % sizes):
                res = list(tg.multi_trajectory(t_ends=arg))
            check(arg == sizes, "the list of requests was changed", got=arg)
        check(len(res) == len(sizes), "number of trajectories", got=len(res), want=len(sizes), request=(kind, sizes))
        seen = [nets.inspect(tr, L, C, rates, "trajectory %d" % k) for k, tr in enumerate(res)]
        if kind == "n":
            check(sorted(len(t) - 1 for t, _ in seen) == sorted(sizes), "numbers of transitions",
                  got=sorted(len(t) - 1 for t, _ in seen), want=sorted(sizes))
        else:
            for last, end in zip(sorted(t[-1] for t, _ in seen), sorted(sizes)):
                check(last <= end + 0.51e-4 and slow * (end - last) <= 50, "end times",
                      got=sorted(t[-1] for t, _ in seen), want=sorted(sizes))
            age += len(sizes)
            ends += sum(sizes)
            lasts += sum(t[-1] for t, _ in seen)
        for t, x in seen:
            # six rows are enough: two independent paths agree on six times with probability below 1e-15
            if len(t) >= 7:
                key = (tuple(t[:6]), tuple(map(tuple, x[:6])))
                for r2, other in paths:
                    check(other != key, "two trajectories repeat the same path", requests=(r2, r), first=t[:6])
                paths.append((r, key))
        stats.label("request " + kind, "processes=%d" % len(sizes))
        stats.mark(len(sizes) > 1)
    if age:
        # the time between the last transition and the end is at most exponential with the smallest total rate,
        # independently in every trajectory (half a digit of rounding per time)
        from scipy.stats import gamma
        tail = gamma.sf(max(slow * (ends - lasts - age * 0.51e-4), 0), age)
        check(tail > 1e-11, "stopped although the next transitions were due", ends=ends, last_times=lasts,
              trajectories=age, smallest_rate=slow, tail=tail)
    with sut("multi_trajectory()"):
        nothing = tg.multi_trajectory()
    check(nothing is None, "trajectories without a request", got=nothing)
