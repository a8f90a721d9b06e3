from hypothesis import strategies as st
import json
import os
import random
import numpy as np
from .. import gen, ref, learn
from ..core import check, sut


@st.composite
def strategy(draw, tier):
    d = draw(learn.small_data(max_vars=6))
    n = len(d["cards"])
    cfg = draw(learn.any_learner())
    return {"d": d, "cfg": cfg, "known": draw(learn.known(n, 4)), "seed": draw(st.integers(0, 2 ** 16)),
            "prior": draw(gen.edge_indices(n, 3)), "prior_kind": draw(st.sampled_from(["random", "random", "none", "absent"])),
            "over": draw(st.booleans()), "plot": draw(st.integers(0, 7)) == 0, "before": draw(st.one_of(st.none(), st.none(), learn.any_learner(), st.just("same"))),
            "parallel": draw(st.integers(0, 24)) == 0}


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    L, cfg = d["labels"], case["cfg"]
    n = len(L)
    prior = {"random": case["prior"], "none": [], "absent": None}[case["prior_kind"]]
    with sut("learning"):
        s = sutkit.sample_path(d, prior)
        est = learn.estimator(s, cfg, learn.edges_arg(d, case["known"]))
    # the same estimator may have learned, and reported, something else before
    first = case["before"]
    if first is not None:
        first = cfg if first == "same" or (first["kind"] == "ctpc") != (cfg["kind"] == "ctpc") else first
        if first["kind"] != "ctpc" and first is cfg:
            first = dict(cfg, max_parents=0 if case["over"] else cfg["max_parents"])
        reports(case, d, est, first, prior, stats, None)
        stats.label("learned before")
    res, m = reports(case, d, est, cfg, prior, stats, 2 if case["parallel"] else None)
    if case["plot"]:
        name = "learned.png"
        try:
            with sut("save_plot_estimated_structure_graph"):
                est.save_plot_estimated_structure_graph(name)
            with open(name, "rb") as f:
                head = f.read(8)
                size = f.seek(0, 2)
            check(head == b"\x89PNG\r\n\x1a\n" and size > 200, "the plot is not an image", head=head, size=size)
            # a plot shows nothing of those before it
            pictures = []
            for k in (1, 2, 1):
                random.seed(k)
                np.random.seed(k)
                with sut("save_plot_estimated_structure_graph again"):
                    est.save_plot_estimated_structure_graph(name)
                with open(name, "rb") as f:
                    pictures.append(f.read())
            check(pictures[0] == pictures[2], "the plot depends on the plots before it")
        finally:
            if os.path.exists(name):
                os.remove(name)
        with sut("adjacency_matrix after plotting"):
            check((np.asarray(est.adjacency_matrix()) == m).all(), "the matrix changed after plotting")
        stats.label("plot")
    lonely = sum(1 for l in L if not any(l in e for e in res))
    stats.label(cfg["kind"], "variables=%d" % n, "prior " + case["prior_kind"], "isolated=%d" % lonely)
    stats.mark(bool(res) and len(res) < n * (n - 1))


def reports(case, d, est, cfg, prior, stats, processes):
    """Learns, and compares everything the estimator reports with what it returned."""
    L = d["labels"]
    n = len(L)
    with sut("learning"):
        res = learn.pairs(learn.estimate(est, cfg, case["seed"], processes))
    with sut("adjacency_matrix"):
        m = np.asarray(est.adjacency_matrix())
    check(m.shape == (n, n) and m.dtype == bool, "shape or type of the adjacency matrix", got=(m.shape, m.dtype))
    got = {(L[i], L[j]) for i in range(n) for j in range(n) if m[i, j]}
    check(got == res, "adjacency matrix", got=got, want=res)
    with sut("spurious_edges"):
        sp = list(est.spurious_edges())
    want = res - {(L[i], L[j]) for i, j in prior} if prior else set()
    check(learn.pairs(sp) == want and len(sp) == len(want), "spurious edges", got=sp, want=want, learned=res,
          prior=prior)
    name = "learned.json"
    try:
        if case.get("over"):
            with open(name, "w") as f:
                f.write("x" * 20000)
        with sut("save_results"):
            est.save_results(name)
        with open(name) as f:
            doc = json.load(f)
    finally:
        if os.path.exists(name):
            os.remove(name)
    check(doc.get("directed") is True and sorted(v["id"] for v in doc["nodes"]) == sorted(L), "variables of the file",
          got=doc.get("nodes"), want=L)
    links = [(e["source"], e["target"]) for e in doc["links"]]
    check(set(links) == res and len(links) == len(res), "edges of the file", got=links, want=res)
    stats.label("spurious edges" if want else "no spurious edges")
    return res, m.copy()
