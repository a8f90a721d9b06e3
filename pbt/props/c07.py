from hypothesis import strategies as st
import math
import numpy as np
import random
from .. import gen
from ..core import check, sut, refused


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["fixed", "fixed", "invalid", "free", "frequency"]))
    wide = draw(st.booleans())
    n = draw(st.integers(20, 40) if kind == "frequency" and wide else
             st.integers(1, 5 if kind == "frequency" else 40 if wide else 12))
    names = draw(gen.labels(n)) if n <= 14 else ["v%d" % i for i in draw(st.permutations(range(n)))]
    return {"kind": kind, "labels": names, "cards": draw(gen.cards(n, 5)), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "edges": draw(st.integers(0, n * (n - 1))), "form": draw(st.integers(0, 2)),
            "offset": draw(st.sampled_from([0.5, 0.25, 0.01, 0.99, 0.999, 1e-3])),
            "density": draw(st.sampled_from([0, 1, 0.0, 1.0, 0.5, 0.1, 0.9, 0.03, 0.15, 0.25, 0.45, 0.55, 0.96])) if draw(st.booleans()) else
            draw(st.floats(0.02, 0.98)), "again": draw(st.booleans())}


def inspect(sutkit, ng, case):
    """The generated graph, checked for consistency; returns its edges."""
    L, C = case["labels"], case["cards"]
    g = ng.graph
    nodes = [str(v) for v in g.nodes]
    edges = [(str(a), str(b)) for a, b in g.edges]
    check(nodes == L, "variables of the graph", got=nodes, want=L)
    check([int(v) for v in g.nodes_values] == C, "cardinalities of the graph", got=list(g.nodes_values), want=C)
    check([int(v) for v in g.nodes_indexes] == list(range(len(L))), "indexes of the graph", got=list(g.nodes_indexes))
    for i, l in enumerate(L):
        check(int(g.get_states_number(l)) == C[i] and int(g.get_node_indx(l)) == i, "node attributes", node=l)
        ps = g.get_ordered_by_indx_set_of_parents(l)
        check([str(p) for p in ps[0]] == [p for p in L if (p, l) in set(edges)], "parents", node=l, got=ps[0])
    check(len(set(edges)) == len(edges), "an edge is repeated", edges=edges)
    for a, b in edges:
        check(a in L and b in L and a != b, "not an edge between two variables", edge=(a, b))
        check(g.has_edge((a, b)), "has_edge", edge=(a, b))
    v = ng.variables
    check([str(x) for x in v.iloc[:, 0]] == L and [int(x) for x in v.iloc[:, 1]] == C, "exported variables",
          got=v.values.tolist())
    e = ng.dyn_str
    check(list(e.columns) == ["From", "To"] and list(v.columns) == ["Name", "Value"], "exported columns")
    out = [(str(a), str(b)) for a, b in zip(e["From"], e["To"])]
    check(sorted(out) == sorted(edges), "exported edges", got=out, want=edges)
    return edges


def run(case, stats):
    from .. import sutkit
    L, C = case["labels"], case["cards"]
    n = len(L)
    pairs = n * (n - 1)
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    kind = case["kind"]
    stats.label(kind, "variables=%d" % (n if n < 5 else 5 * (n // 5)))
    with sut("NetworkGenerator"):
        ng = sutkit.NetworkGenerator(list(L), list(C))
    if kind == "fixed":
        k = case["edges"]
        density = k / pairs if pairs else [0.0, 0, 0.5][case["form"]]
        if pairs and case["form"] == 1:
            density = np.float64(density)
        elif pairs and case["form"] == 2 and k in (0, pairs):
            density = k // pairs
        for _ in range(2 if case["again"] else 1):
            with sut("generate_graph(%r, fixed=True)" % density):
                ng.generate_graph(density, fixed=True)
            edges = inspect(sutkit, ng, case)
            check(len(edges) == (k if pairs else 0), "number of edges", got=len(edges), want=k)
        stats.mark(0 < k < pairs)
    elif kind == "invalid":
        if pairs == 0:
            return
        density = (min(case["edges"], pairs - 1) + case["offset"]) / pairs
        with refused("generate_graph(%r, fixed=True) on %d variables" % (density, n), RuntimeError):
            ng.generate_graph(density, fixed=True)
        stats.mark()
    elif kind == "free":
        density = case["density"]
        with sut("generate_graph(%r)" % density):
            ng.generate_graph(density) if case["form"] else ng.generate_graph(density, False)
        edges = inspect(sutkit, ng, case)
        if density == 0:
            check(not edges, "an edge with density 0", edges=edges)
        elif density == 1:
            check(len(edges) == pairs, "a missing edge with density 1", got=len(edges), want=pairs)
        es = set(edges)
        groups({(a, b): int((a, b) in es) for a in L for b in L if a != b}, L, 1, float(density))
        stats.mark(0 < density < 1)
    else:
        density = float(case["density"])
        wide = n > 8
        runs = 12 if wide else 120
        count = {(a, b): 0 for a in L for b in L if a != b}
        both = {}
        for _ in range(runs):
            with sut("generate_graph"):
                ng.generate_graph(density)
                edges = [(str(a), str(b)) for a, b in ng.graph.edges]
            for e in edges:
                check(e in count, "not an edge between two variables", edge=e)
                count[e] += 1
            es = set(edges)
            if not wide:
                for a in count:
                    for b in count:
                        if a < b:
                            both[a, b] = both.get((a, b), 0) + (a in es and b in es)
        for e, k in count.items():
            likely("edge %s" % (e,), k, runs, density)
        for e, k in both.items():
            likely("edges %s together" % (e,), k, runs, density ** 2)
        groups(count, L, runs, density)
        stats.mark(pairs > 0 and 0 < density < 1)


def likely(what, k, m, p):
    from scipy.stats import binom
    check(min(binom.cdf(k, m, p), binom.sf(k - 1, m, p)) > 1e-10, "frequency of %s" % what, got=k, runs=m, probability=p)


def groups(count, L, runs, density):
    """Total numbers of edges: all, by direction, by source, by target, in the four corners of the matrix."""
    at = {l: i for i, l in enumerate(L)}
    sums = {}
    for (a, b), k in count.items():
        for g in ("all edges", "edges to later variables" if at[a] < at[b] else "edges to earlier variables",
                  "edges from " + a, "edges to " + b, "edges from half %d to half %d" % (2 * at[a] // len(L), 2 * at[b] // len(L)),
                  "edges to later names" if a < b else "edges to earlier names"):
            s = sums.setdefault(g, [0, 0])
            s[0] += k
            s[1] += runs
    for g, (k, m) in sums.items():
        likely(g, k, m, density)
