from hypothesis import strategies as st
import math
from .. import gen, ref, learn
from ..core import check, sut
from .c16 import ask


@st.composite
def strategy(draw, tier):
    d = draw(st.one_of(gen.sim(min_vars=2, max_vars=6, max_card=4, max_steps=300),
                       gen.data(min_vars=2, max_vars=5, max_card=4, max_steps=40)))
    n = len(d["cards"])
    pool = []
    for _ in range(draw(st.integers(1, 6))):
        child = draw(st.integers(0, n - 1))
        chosen = draw(gen.parents_of(n, child, 5).filter(bool))
        while len(chosen) > 1 and math.prod(d["cards"][p] for p in chosen) > 100:
            chosen = chosen[:-1]
        # the tests the algorithm makes on the same variables: every one of them as the tested parent
        for k in range(len(chosen)):
            pool.append([chosen[k], child, chosen[:k] + chosen[k + 1:]])
            if k and draw(st.booleans()):
                pool.append([chosen[k], child, chosen[:k]])
    size = draw(st.integers(2, 14))
    two = draw(st.booleans())
    ops = draw(st.lists(st.one_of(st.integers(0, len(pool) - 1), st.integers(0, len(pool) - 1), st.integers(0, len(pool) - 1),
                                  st.integers(0, len(pool) - 1), st.integers(0, len(pool) - 1),
                                  st.integers(0, len(pool) - 1).map(lambda k: ["shuffled", k]),
                                  *([st.integers(0, len(pool) - 1).map(lambda k: ["other", k])] * (2 if two else 0)),
                                  st.sampled_from(["learn"] + [0] * 3)), min_size=size, max_size=size))
    return {"d": d, "cfg": draw(learn.ctpc()), "pool": pool, "ops": ops,
            # the second estimator: on a part of the data, or with other levels
            "cfg2": draw(st.one_of(st.none(), learn.ctpc())), "part": draw(st.booleans()),
            "known": draw(learn.known(n, 3)) if draw(st.integers(0, 3)) == 0 else []}


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    cfg = case["cfg"]
    with sut("import"):
        s = sutkit.sample_path(d)
        est = learn.estimator(s, cfg, learn.edges_arg(d, case["known"]))
    testers = {False: ref.Tester(d, cfg["exp"], cfg["chi"], cfg["thumb"])}
    two = any(op[0] == "other" for op in case["ops"] if isinstance(op, list))
    if two:
        # another estimator, on the first part of the same data or with other levels
        d2, cfg2 = d, case["cfg2"] or cfg
        if case["part"]:
            d2 = dict(d, trajs=[{"t": tr["t"][:2 + len(tr["t"]) // 2], "x": tr["x"][:2 + len(tr["t"]) // 2]} for tr in d["trajs"]])
        with sut("import"):
            s2 = sutkit.sample_path(d2) if case["part"] else s
            est2 = learn.estimator(s2, cfg2, learn.edges_arg(d, case["known"]))
        testers[True] = ref.Tester(d2, cfg2["exp"], cfg2["chi"], cfg2["thumb"])
        stats.label("two estimators")
    answers = {}
    given = {}
    tests = 0
    for step, op in enumerate(case["ops"]):
        if op == "learn":
            with sut("learning in between"):
                learn.estimate(est, cfg)
            stats.label("learning in between")
            continue
        kind, op = op if isinstance(op, list) else ("", op)
        parent, child, cond = case["pool"][op]
        path, which, levels = (s2, est2, cfg2) if kind == "other" else (s, est, cfg)
        key = (parent, child, tuple(sorted(cond)), kind == "other")
        if kind == "shuffled":
            cond = cond[::-1]
        if key not in answers:
            with sut("independence test by a new estimator"):
                answers[key] = ask(learn.estimator(path, levels), path, d, parent, child, sorted(cond))
            try:
                want, _ = testers[key[3]].independent(parent, child, list(cond))
                check(answers[key] == want, "the answer of a new estimator depends on earlier tests by others", step=step,
                      parent=d["labels"][parent], child=d["labels"][child], given=[d["labels"][c] for c in cond],
                      got=answers[key], want=want, levels=levels)
            except ref.Near:
                stats.label("statistic at its quantile (not compared with the reference)")
        # the list of a caller who uses it again
        mine = given.setdefault((op, kind == "shuffled"), [d["labels"][c] for c in cond])
        with sut("independence test %d of a sequence" % step):
            got = ask(which, path, d, parent, child, list(cond), mine)
        check(mine == [d["labels"][c] for c in cond], "the test changed the caller's list", got=mine)
        check(got == answers[key], "the answer depends on earlier tests", step=step, parent=d["labels"][parent],
              child=d["labels"][child], given=[d["labels"][c] for c in cond], estimator=kind or "first", got=got, alone=answers[key], cfg=cfg)
        tests += 1
    stats.label("tests=%d" % tests, "children=%d" % len({k[1] for k in answers}),
                "both answers" if len(set(answers.values())) > 1 else "one answer")
    stats.mark(tests >= 3 and len(answers) >= 2)
