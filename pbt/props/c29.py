from hypothesis import strategies as st
import math
import os
import random
import numpy as np
from .. import gen, nets
from ..core import check, sut

GRID = [s * l for l in (0.02, 0.04, 0.08, 0.15, 0.3, 0.6, 1.2, 2.5) for s in (1, -1)]
LIMIT = math.log(len(GRID) / 2e-11)


@st.composite
def strategy(draw, tier):
    nt = draw(nets.net(max_vars=5, max_card=4, max_parents=4, max_matrices=60, labels=nets.plain_labels,
                       lo=(0.5, 1.0, 2.0), hi=(2.0, 5.0, 10.0)))
    nt["speed"] = min(draw(st.sampled_from([1, 1, 20, 300, 2000])), 4000 / (nt["hi"] * len(nt["cards"])))
    return {"net": nt, "seed": draw(st.integers(0, 2 ** 31 - 1)), "route": draw(st.sampled_from(["direct", "file", "file"])),
            "lengths": draw(st.sampled_from([[800], [400, 400], [300, 300, 300], [150] * 6])),
            "parallel": draw(st.integers(0, 9)) == 0}


def agrees(count, exposure, slack, hidden):
    """Whether `count` events fit `exposure` (rate times observed time); `hidden` events may be missing."""
    for l in GRID:
        c = count + (hidden if l < 0 else 0)
        e = exposure + (slack if l > 0 else -slack)
        if l * c - math.expm1(l) * e > LIMIT:
            return False
    return True


def run(case, stats):
    from .. import sutkit
    nt = case["net"]
    L, C = nt["labels"], nt["cards"]
    n = len(L)
    variables, dyn_str, cims, rates, edges = nets.build(nt)
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    with sut("sampling"):
        tg = sutkit.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
        if case["parallel"]:
            trs = list(tg.multi_trajectory(max_trs=case["lengths"]))
        else:
            trs = [tg.CTBN_Sample(max_tr=k) for k in case["lengths"]]
    name = "pipeline.json"
    try:
        with sut("handing the trajectories on"):
            if case["route"] == "file":
                exp = sutkit.JsonExporter(variables, dyn_str, cims)
                for tr in trs:
                    exp.add_trajectory(tr)
                exp.out_file(name)
                imp = sutkit.json_importer(name, "Time", cims=case["parallel"])
                imp.import_data(0)
            else:
                imp = sutkit.SampleImporter(trajectory_list=trs, variables=variables, prior_net_structure=dyn_str)
                imp.import_data()
            sp = sutkit.SamplePath(imp)
            sp.build_trajectories()
            sp.build_structure()
    finally:
        if os.path.exists(name):
            os.remove(name)
    total = sum(case["lengths"])
    contexts = 0
    # The times have four decimals. A time spent in some states is off by a sum of rounding errors, each of at most
    # 0.5e-4 and of mean nearly 0 given the past (less than Q/4 * 1e-8 for a total rate Q): Hoeffding's bound, or the worst case.
    fastest = sum(max(-m[x, x] for m in table.values() for x in range(len(m))) for _, table in rates)
    slack = min(1e-4 * total, 1e-4 * math.sqrt(total * 15) + total * fastest * 1e-8 / 4)
    for j, l in enumerate(L):
        ps, table = rates[j]
        with sut("estimating the parameters of " + l):
            sofc, _ = sutkit.set_of_cims(sp, l)
        combs, mats = sutkit.by_comb(sofc, len(ps))
        check(sorted(combs) == sorted(table) and len(mats) == len(combs), "parent combinations of " + l, got=combs)
        moves = expected = 0.0
        for comb, m in zip(combs, mats):
            q = np.asarray(m.cim, dtype=float)
            T = np.asarray(m.state_residence_times, dtype=float)
            want = table[comb]
            for x in range(C[j]):
                # every estimated intensity is (events + 1) / (time + 1)
                exposure = -want[x, x] * T[x]
                contexts += exposure > 20
                moves += -q[x, x] * (T[x] + 1) + 1
                expected += exposure
                for y in range(C[j]):
                    count = (q[x, y] if y != x else -q[x, x]) * (T[x] + 1) + (-1 if y != x else 1)
                    rate = want[x, y] if y != x else -want[x, x]
                    check(agrees(count, rate * T[x], rate * slack + 1e-6, len(trs)),
                          "estimated intensity of " + l, parents=[L[p] for p in ps], comb=comb, pair=(x, y), estimated=q[x, y],
                          true=want[x, y], time=T[x])
        check(agrees(moves, expected, max(-m[x, x] for m in table.values() for x in range(C[j])) * slack + 1e-6, len(trs)), "all the estimated intensities of " + l, moves=moves, expected=expected)
    stats.label(case["route"], nt["make"], "most parents=%d" % max(len(p) for p, _ in rates),
                "contexts=%d" % (10 * (contexts // 10)))
    stats.mark(contexts >= 4 and len(edges) > 0)
