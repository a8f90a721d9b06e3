from hypothesis import strategies as st
import numpy as np
from .. import gen, ref
from ..core import check, sut

NAMES = ["add", "add", "add", "drop", "clear", "drop variable", "graph add", "graph add", "graph drop", "graph drop variable",
         "new graph", "init", "estimate"]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 7))
    size = draw(st.integers(0, 25))
    ops = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 255), st.integers(0, 255)), min_size=size,
                        max_size=size))
    start = draw(gen.edge_indices(n, 3))
    imported = draw(st.booleans())
    idx = list(range(n)) if imported else sorted(draw(st.permutations(range(n + 3)))[:n])
    cs = draw(gen.cards(n, 4))
    return {"labels": draw(gen.labels(n)), "cards": cs, "indexes": idx, "edges": start, "imported": imported,
            "ops": [list(o) for o in ops], "seed": draw(st.integers(0, 2 ** 16)),
            "traj": draw(gen.trajectory(cs, 12))}


class Model:
    def __init__(self, labels, indexes, cards, edges):
        self.nodes = [(l, i, c) for l, i, c in zip(labels, indexes, cards)]
        self.edges = {(labels[a], labels[b]) for a, b in edges}
        self.graph = None

    def labels(self):
        return [v[0] for v in self.nodes]

    def drop(self, l):
        self.nodes = [v for v in self.nodes if v[0] != l]
        self.edges = {e for e in self.edges if l not in e}
        if self.graph is not None:
            self.graph = {e for e in self.graph if l not in e}


def look(s, g, m, after):
    what = "after %s: " % after
    L = m.labels()
    with sut("queries on a structure " + after):
        check([str(v) for v in s.nodes_labels] == L, what + "variables", got=list(s.nodes_labels), want=L)
        check([int(v) for v in s.nodes_indexes] == [v[1] for v in m.nodes], what + "indexes", got=list(s.nodes_indexes))
        check([int(v) for v in s.nodes_values] == [v[2] for v in m.nodes], what + "cardinalities", got=list(s.nodes_values))
        es = [(str(a), str(b)) for a, b in s.edges]
        check(sorted(es) == sorted(m.edges), what + "edges", got=es, want=m.edges)
        for l, i, c in m.nodes:
            check(int(s.get_node_indx(l)) == i, what + "index of " + l, got=s.get_node_indx(l), want=i)
            check(str(s.get_node_id(i)) == l, what + "label of index %d" % i, got=s.get_node_id(i), want=l)
            check(int(s.get_states_number(l)) == c, what + "cardinality of " + l, got=s.get_states_number(l))
            check(int(s.get_positional_node_indx(l)) == L.index(l), what + "position of " + l)
            for k in L:
                check(bool(s.contains_edge((l, k))) == ((l, k) in m.edges), what + "contains_edge", edge=(l, k))
    if g is None:
        return
    with sut("queries on a graph " + after):
        check([str(v) for v in g.nodes] == L, what + "variables of the graph", got=list(g.nodes), want=L)
        check([int(v) for v in g.nodes_indexes] == [v[1] for v in m.nodes], what + "indexes of the graph")
        check([int(v) for v in g.nodes_values] == [v[2] for v in m.nodes], what + "cardinalities of the graph")
        es = [(str(a), str(b)) for a, b in g.edges]
        check(sorted(es) == sorted(m.graph), what + "edges of the graph", got=es, want=m.graph)
        for l, i, c in m.nodes:
            check(int(g.get_node_indx(l)) == i and int(g.get_states_number(l)) == c, what + "attributes of " + l)
            check(int(g.get_positional_node_indx(l)) == L.index(l), what + "position in the graph of " + l,
                  got=g.get_positional_node_indx(l), want=L.index(l))
            ps = [v for v in m.nodes if (v[0], l) in m.graph]
            check(sorted(map(str, g.get_parents_by_id(l))) == sorted(v[0] for v in ps), what + "parents of " + l,
                  got=g.get_parents_by_id(l))
            got = g.get_ordered_by_indx_set_of_parents(l)
            check([(str(a), int(b), int(k)) for a, b, k in zip(*got)] == ps and len(got[0]) == len(ps),
                  what + "parents of " + l + " in order", got=got, want=ps)
            for k in L:
                check(bool(g.has_edge((k, l))) == ((k, l) in m.graph), what + "has_edge", edge=(k, l))


def equality(sutkit, s, m, total, rng):
    def make(nodes, edges):
        edges = sorted(edges)
        edges = [edges[i] for i in rng.permutation(len(edges))]
        return sutkit.Structure([v[0] for v in nodes], np.array([v[1] for v in nodes], dtype=int),
                                np.array([v[2] for v in nodes], dtype=int), edges, total)
    with sut("comparison of structures"):
        same = make(m.nodes, m.edges)
        check(s == same and same == s and not s != same, "two structures with the same contents differ")
        others = []
        L = m.labels()
        free = sorted((a, b) for a in L for b in L if a != b and (a, b) not in m.edges)
        if free:
            others.append(("one more edge", make(m.nodes, m.edges | {free[rng.randint(len(free))]})))
        if m.edges:
            e = sorted(m.edges)[rng.randint(len(m.edges))]
            others.append(("one edge less", make(m.nodes, m.edges - {e})))
            if (e[1], e[0]) not in m.edges:
                others.append(("an edge turned round", make(m.nodes, m.edges - {e} | {(e[1], e[0])})))
        if m.nodes:
            k = rng.randint(len(m.nodes))
            l, i, c = m.nodes[k]
            others.append(("another cardinality", make(m.nodes[:k] + [(l, i, c + 1)] + m.nodes[k + 1:], m.edges)))
            others.append(("another index", make(m.nodes[:k] + [(l, i + 50, c)] + m.nodes[k + 1:], m.edges)))
            new = l + "'"
            ren = {(new if a == l else a, new if b == l else b) for a, b in m.edges}
            others.append(("another label", make(m.nodes[:k] + [(new, i, c)] + m.nodes[k + 1:], ren)))
            others.append(("one variable less", make(m.nodes[:k] + m.nodes[k + 1:], {e for e in m.edges if l not in e})))
        for what, o in others:
            check(not s == o and not o == s, "structures that differ are equal: " + what, nodes=m.nodes, edges=m.edges)
        check(not s == "structure" and not s == None, "a structure equals something else")  # noqa: E711


def run(case, stats):
    from .. import sutkit
    L, C = case["labels"], case["cards"]
    n = len(L)
    rng = np.random.RandomState(case["seed"])
    m = Model(L, case["indexes"], C, case["edges"])
    tr = case["traj"] if len(case["traj"]["t"]) > 1 else {"t": [0, 3], "x": [[0] * n, [-1] * n]}
    d = {"labels": L, "cards": C, "time": "Time'", "unit": 0, "trajs": [tr]}
    with sut("making a structure"):
        if case["imported"]:
            sp = sutkit.sample_path(d, case["edges"] or None)
            s = sp.structure
            total = n
        else:
            total = max(case["indexes"]) + 1
            mine = [list(L), np.array(case["indexes"]), np.array(C), [(L[a], L[b]) for a, b in case["edges"]]]
            s = sutkit.Structure(*mine, total)
            twin = sutkit.Structure(*mine, total)
            unedited = Model(L, case["indexes"], C, case["edges"])
    g = None
    look(s, g, m, "at the start")
    removed = estimated = 0
    for name, a, b in case["ops"]:
        labels = m.labels()
        k = len(labels)
        pairs = [(p, q) for p in labels for q in labels if p != q]
        free = [e for e in pairs if e not in m.edges]
        done = name
        with sut(name):
            if name == "add" and free:
                e = free[a % len(free)]
                s.add_edge(e)
                m.edges.add(e)
            elif name == "drop" and m.edges:
                e = sorted(m.edges)[a % len(m.edges)]
                s.remove_edge(e)
                m.edges.remove(e)
            elif name == "clear" and a < 64:
                s.clean_structure_edges()
                m.edges.clear()
            elif name == "drop variable" and k > 1:
                s.remove_node(labels[a % k])
                m.drop(labels[a % k])
                g = m.graph = None    # a graph follows only the removals made through it
                removed += 1
            elif name == "graph add" and g is not None and pairs:
                es = [pairs[a % len(pairs)]] + ([pairs[b % len(pairs)]] if b % 2 else [])
                g.add_edges(es)
                m.graph |= set(es)
            elif name == "graph drop" and g is not None and m.graph:
                es = sorted(m.graph)
                es = [es[a % len(es)]] + ([es[b % len(es)]] if b % 2 else [])
                g.remove_edges(es)
                m.graph -= set(es)
            elif name == "graph drop variable" and g is not None and k > 1:
                g.remove_node(labels[a % k])
                m.drop(labels[a % k])
                removed += 1
            elif name == "new graph":
                g = sutkit.NetworkGraph(s)
                g.add_nodes(s.nodes_labels)
                g.add_edges(s.edges)
                m.graph = set(m.edges)
            elif name == "init" and g is not None:
                g.fast_init(labels[a % k])
                m.graph |= m.edges
                done = "init of " + labels[a % k]
            elif name == "estimate" and case["imported"]:
                # the remaining variables, with their own columns of the data
                l = labels[a % k]
                if g is None or b % 2:
                    g = sutkit.NetworkGraph(s)
                    m.graph = set()
                g.fast_init(l)
                m.graph |= m.edges
                p = sutkit.ParametersEstimator(sp.trajectories, g)
                p.fast_init(l)
                sofc = p.compute_parameters_for_node(l)
            else:
                continue
        if name == "estimate":
            from .c01 import compare
            ps = [L.index(v) for v in labels if (v, l) in m.graph]
            compare(d, L.index(l), ps, sofc, "statistics of %s after edits" % l)
            estimated += removed > 0
        look(s, g, m, "after " + done)
        if not case["imported"]:
            look(twin, None, unedited, "for another structure from the same lists after " + done)
            check(mine[0] == L and mine[1].tolist() == case["indexes"] and mine[2].tolist() == C and
                  mine[3] == [(L[a], L[b]) for a, b in case["edges"]], "the caller's lists changed after " + done, got=mine)
        stats.label(name)
    equality(sutkit, s, m, total, rng)
    check(int(s.total_variables_number) == total, "number of variables of the data set", got=s.total_variables_number)
    stats.label("removed=%d" % min(removed, 3), "estimated after a removal" if estimated else "not estimated")
    stats.mark(removed > 0 and len(case["ops"]) > 4)
