from hypothesis import strategies as st
import hashlib
import random
import numpy as np
from .. import gen, learn
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 7))
    labels = draw(gen.labels(n))
    pairs = [[i, j] for i in range(n) for j in range(n) if i != j]
    density = draw(st.sampled_from([0, 0, 1, 3, 8]))
    known = [p for p in pairs if density and draw(st.integers(0, 9)) < density]
    cfg = draw(learn.score(iterations=(0, 1, 2, 5, 20, 60, 400)))
    whole = draw(st.integers(0, 3)) == 0
    return {"labels": labels, "cfg": cfg, "known": known, "seed": draw(st.integers(0, 2 ** 16)),
            "whole": whole, "nodes": [draw(st.integers(0, n - 1)) for _ in range(draw(st.integers(1, 3)))],
            "landscape": {"kind": draw(st.sampled_from(["random", "plateaus", "sum", "sum", "flat", "slope", "slope", "tiny"])),
                          "seed": draw(st.integers(0, 2 ** 16))},
            "left_out": draw(st.lists(st.sampled_from(["max_parents", "iterations_number", "patience", "tabu_length",
                                                       "tabu_rules_duration", "optimizer"]), max_size=3, unique=True))
            if whole and draw(st.booleans()) else [],
            "prior": draw(gen.edge_indices(n, 3)) if whole and draw(st.booleans()) else []}


def landscape(spec, node, ps):
    """A score for a set of parents: any function will do."""
    def r(*what):
        return int(hashlib.md5(repr((spec["seed"], node) + what).encode()).hexdigest()[:8], 16) / 2.0 ** 32
    k = spec["kind"]
    ps = sorted(ps)
    if k == "random":
        return -1000 * r(ps)
    if k == "plateaus":
        return -float(int(3 * r(ps)))
    if k == "sum":
        return sum(r(p) - 0.5 for p in ps) - 20
    if k == "flat":
        return -7.0
    if k == "slope":
        return sum((1.0 if r(p) < 0.7 else -1.0) for p in ps)
    return -12345.0 + 1e-9 * r(ps)


def model(seq, scores, known, limit, iterations, patience, n_candidates, tabu, where):
    """Follows the sets of parents that were scored, move by move; what is kept at the end."""
    check(not seq or seq[0] == known, "the search does not start at the known parents", got=seq[:1], known=known, **where)
    C = known
    fails = moves = 0
    stopped = False
    tried = []
    for E in seq[1:]:
        if E == C:
            continue
        check(not stopped, "the search goes on after more than %s moves without improvement" % patience, set=C, next=E, **where)
        new, gone = E - C, C - E
        check(not gone & known, "a known parent was taken out", set=C, next=E, **where)
        full = limit is not None and len(C) >= limit
        if full and new:
            check(len(new) == 1 and len(gone) == 1, "not an exchange of one parent at the parents limit", set=C, next=E, limit=limit, **where)
        else:
            check(len(new) + len(gone) == 1, "not a single addition or removal", set=C, next=E, limit=limit, **where)
        tried.append(min(new or gone))
        moves += 1
        if scores[E] > scores[C]:
            C = E
            fails = 0
        else:
            fails += 1
            stopped = patience is not None and fails > patience
    check(moves <= iterations, "more moves than iterations", moves=moves, iterations=iterations, **where)
    stuck = not n_candidates or (limit is not None and len(C) >= limit and C == known)
    if moves < iterations:
        check(stopped or stuck, "the search ends before its limits", moves=moves, iterations=iterations, patience=patience,
              fails=fails, set=C, **where)
    if tabu:
        length, duration = [n_candidates if v is None else v for v in tabu]
        if length > 1 and duration > 1 and n_candidates > 1:
            for a, b in zip(tried, tried[1:]):
                check(a != b, "a variable was tried again at once", variable=a, tried=tried, **where)
        if duration > iterations:
            k = min(length + 1, n_candidates)
            for i in range(len(tried)):
                w = tried[i:i + k]
                check(len(set(w)) == len(w), "a variable was tried again while it was tabu", tried=tried, length=length, **where)
        # what has left the list is tried again: never so by chance alone, once in 1e11
        free = n_candidates - length
        if free > 1 and (limit is None or limit > len(known)) and len(tried) > length + 26 * free:
            k = length + 2
            check(any(len(set(tried[i:i + k])) < k for i in range(len(tried) - k + 1)), "the tabu list is longer than asked",
                  tried=tried, length=length, **where)
    if limit is None and moves >= 60 * n_candidates:
        check(len(set(tried)) == n_candidates, "a candidate was never tried", tried=sorted(set(tried)), candidates=n_candidates, **where)
    return C, moves, stopped


def tiny(L):
    n = len(L)
    return {"labels": L, "cards": [2] * n, "time": "Time" if "Time" not in L else "Time_", "unit": 0,
            "trajs": [{"t": [0, 1, 2], "x": [[0] * n, [1] * n, [-1] * n]}]}


def scripted(s, d, cfg, known, spec, log, scores):
    """A learner whose scores come from a landscape; it writes down what it scores."""
    from .. import sutkit

    class Scripted(sutkit.StructureScoreBasedEstimator):
        def get_score_from_graph(self, graph, node_id):
            super().get_score_from_graph(graph, node_id)   # it also prepares the graph
            ps = frozenset(str(p) for p in graph.get_parents_by_id(node_id))
            key = (str(node_id), ps)
            if key not in scores:
                scores[key] = landscape(spec, key[0], ps)
            log.append(key)
            return scores[key]
    return Scripted(sample_path=s, tau_xu=cfg["tau"], alpha_xu=cfg["alpha"], known_edges=learn.edges_arg(d, known))


def run(case, stats):
    from .. import sutkit
    L = case["labels"]
    n = len(L)
    cfg = case["cfg"]
    log = []
    scores = {}

    d = tiny(L)
    args = learn.score_args(cfg)
    with sut("import"):
        s = sutkit.sample_path(d, case["prior"] or None)
        est = scripted(s, d, cfg, case["known"], case["landscape"], log, scores)
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    if case["whole"]:
        given = {k: v for k, v in args.items() if k not in case["left_out"]}
        with sut("estimate_structure"):
            res = learn.pairs(est.estimate_structure(disable_multiprocessing=True, **given))
        runs = [(l, {a for a, b in res if b == l}, [ps for v, ps in log if v == l]) for l in L]
        rules = dict(max_parents=None, iterations_number=40, patience=None, tabu_length=None, tabu_rules_duration=None, optimizer="tabu")
        rules.update(given)
    else:
        runs = []
        rules = dict(args)
        for j in case["nodes"]:
            del log[:]
            with sut("estimate_parents"):
                res = learn.pairs(est.estimate_parents(L[j], **args))
            check(all(b == L[j] for _, b in res), "an edge into another variable", got=res, child=L[j])
            check(all(v == L[j] for v, _ in log), "another variable's family was scored", child=L[j])
            runs.append((L[j], {a for a, _ in res}, [ps for _, ps in log]))
    total = 0
    for child, got, seq in runs:
        known = frozenset(L[a] for a, b in case["known"] if L[b] == child)
        candidates = n - 1 - len(known)
        tabu = (rules.get("tabu_length"), rules.get("tabu_rules_duration")) if rules["optimizer"] == "tabu" else None
        want, moves, stopped = model(seq, {ps: v for (c, ps), v in scores.items() if c == child}, known, rules["max_parents"],
                                     rules["iterations_number"], rules["patience"], candidates, tabu, {"child": child, "cfg": cfg})
        check(got == set(want), "the result is not the last set of parents that was kept", child=child, got=got, want=set(want), cfg=cfg)
        total += moves
        stats.label("stopped by patience" if stopped else "all iterations" if moves >= rules["iterations_number"] else "no move possible",
                    "moved" if want != known else "stayed")
    stats.label(rules["optimizer"], case["landscape"]["kind"], "whole" if case["whole"] else "one by one",
                "known" if case["known"] else "nothing known")
    stats.mark(total >= 3)
