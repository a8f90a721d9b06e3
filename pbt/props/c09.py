from hypothesis import strategies as st
import math
import random
import numpy as np
from .. import gen, nets
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    nt = draw(nets.net(max_vars=6, max_card=4, big=11, max_parents=5))
    nt["speed"] = draw(st.sampled_from([1, 1, 1, 1, 0.01, 0.01, 20]))
    return {"net": nt, "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "requests": draw(st.lists(st.one_of(
                st.tuples(st.just("n"), st.one_of(st.integers(0, 8), st.integers(1, 120))),
                st.tuples(st.just("t"), st.integers(0, 90)), st.tuples(st.just("t"), st.integers(0, 90)),
                st.tuples(st.just("ti"), st.integers(0, 60))), min_size=1, max_size=3))}


def poisson_tail(k, mu):
    from scipy.stats import poisson
    return min(poisson.cdf(k, mu), poisson.sf(k - 1, mu))


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    slow, fast = nets.slowest(rates), nets.fastest(rates)
    with sut("TrajectoryGenerator"):
        tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    earlier = []
    for kind, size in case["requests"]:
        if kind == "n":
            with sut("CTBN_Sample(max_tr=%d)" % size):
                tr = tg.CTBN_Sample(max_tr=size)
            t, x = nets.inspect(tr, L, C, rates)
            check(len(t) == size + 1, "number of rows", got=len(t), want=size + 1)
        else:
            end = (size + 0.5) / fast if kind == "t" else max(1, int(size / fast)) if size else 0
            with sut("CTBN_Sample(t_end=%r)" % end):
                tr = tg.CTBN_Sample(t_end=end)
            t, x = nets.inspect(tr, L, C, rates)
            check(t[-1] <= end + 0.51e-4, "beyond the end time", got=t[-1], end=end)
            check(slow * (end - t[-1]) <= 50, "stopped although the next transition was due", last=t[-1], end=end,
                  smallest_rate=slow)
            if nt["constant"] and nt["make"] == "own":
                p = poisson_tail(len(t) - 1, fast * end)
                check(p > 1e-11, "number of transitions before the end time", got=len(t) - 1, mean=fast * end, tail=p)
                stats.label("constant rate")
        if len(t) > 1:
            with sut("import of a sampled trajectory"):
                imp = sutkit.SampleImporter(trajectory_list=[tr], variables=variables, prior_net_structure=dyn_str)
                imp.import_data()
                sp = sutkit.SamplePath(imp)
                sp.build_trajectories()
                sp.build_structure()
            got = np.asarray(sp.trajectories.times, dtype=float)
            check(len(got) == len(t) - 1 and np.allclose(got, np.diff(t), atol=1e-9), "imported times",
                  got=got.tolist()[:10], want=np.diff(t).tolist()[:10])
            check(np.asarray(sp.trajectories.trajectory).tolist() == x[:-1], "imported states")
        for old, copy in earlier:
            check(old.equals(copy), "an earlier trajectory was changed by a later request")
        earlier.append((tr, tr.copy(deep=True)))
        stats.label("request " + kind, "rows<=%d" % (10 * math.ceil(len(t) / 10)))
        stats.mark(len(t) > 3 and len(edges) > 0)
    stats.label(nt["make"], "parents=%d" % max(len(p) for p, _ in rates))
