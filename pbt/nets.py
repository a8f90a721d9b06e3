"""Networks to sample from: generation, reading their intensities, validity of a sampled trajectory."""
import itertools
import math
import random
import re

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import check, sut, Discard


@st.composite
def net(draw, max_vars=5, max_card=4, big=0, max_parents=4, lo=(0.1, 0.5, 1.0, 2.0), hi=(1.0, 2.0, 5.0, 20.0),
        max_matrices=400, labels=gen.labels, min_vars=1, sizes=None):
    """A network as plain data (its matrices follow from `seed`)."""
    n = draw(st.integers(min_vars, max_vars)) if sizes is None else draw(st.sampled_from(sizes))
    cs = draw(gen.cards(n, max_card, big))
    edges = draw(gen.edge_indices(n, max_parents))
    while True:
        size = [math.prod([cs[i] for i, k in edges if k == j]) for j in range(n)]
        if sum(size) <= max_matrices:
            break
        edges = [e for e in edges if e[1] != size.index(max(size))] + \
                [e for e in edges if e[1] == size.index(max(size))][1:]
    a = draw(st.sampled_from(lo))
    return {"labels": draw(labels(n)), "cards": cs, "edges": edges,
            "make": draw(st.sampled_from(["own", "own", "generator"])), "density": draw(st.sampled_from([0, 0.3, 0.6])),
            "lo": a, "hi": max(a, draw(st.sampled_from(hi))), "strength": draw(st.sampled_from([1, 1, 8, 30])),
            "zeros": draw(st.sampled_from([0, 0, 0.5])), "constant": draw(st.integers(0, 4)) == 0,
            "whole": draw(st.integers(0, 5)) == 0, "seed": draw(st.integers(0, 2 ** 31 - 1))}


def matrix(rng, k, nt, exits):
    """One intensity matrix with four decimals and rows that sum to zero exactly as written."""
    q = np.zeros((k, k))
    for s in range(k):
        w = rng.uniform(0.1, 1, k) ** nt.get("sharp", 1)
        w[s] = 0
        if nt["zeros"]:
            for v in range(k):
                if v != s and rng.uniform() < nt["zeros"] and np.count_nonzero(w) > 1:
                    w[v] = 0
        w *= exits[s] / w.sum()
        for v in range(k):
            if v != s:
                q[s, v] = max(math.ceil(w[v]) if nt["whole"] else round(w[v], 4), 0.0)
        if q[s].sum() == 0:
            q[s, (s + 1) % k] = 1.0
        q[s, s] = -round(q[s].sum(), 4)
    return q


def build(nt, whole_type=float):
    """(variables, dyn_str, cims) as the generator would hand them out, and the rates by parent states."""
    from . import sutkit
    import pandas as pd
    L, C = nt["labels"], nt["cards"]
    n = len(L)
    if nt.get("speed", 1) != 1:
        nt = dict(nt, lo=nt["lo"] * nt["speed"], hi=nt["hi"] * nt["speed"])
    if nt["make"] == "generator":
        np.random.seed(nt["seed"])
        random.seed(nt["seed"])
        with sut("NetworkGenerator"):
            ng = sutkit.NetworkGenerator(list(L), list(C))
            ng.generate_graph(nt["density"])
            es = [(L.index(a), L.index(b)) for a, b in ng.graph.edges]
            if sum(math.prod([C[i] for i, k in es if k == j]) for j in range(n)) > 600:
                raise Discard("too many matrices")
            ng.generate_cims(nt["lo"], nt["hi"])
            variables, dyn_str, cims = ng.variables, ng.dyn_str, ng.cims
        return variables, dyn_str, cims, rates_of(L, C, es, cims), [list(e) for e in es]
    rng = np.random.RandomState(nt["seed"])
    edges = nt["edges"]
    cims = {}
    for j in range(n):
        ps = sorted(i for i, k in edges if k == j)
        combs = sutkit.NetworkGraph.build_p_comb_structure_for_a_node([C[p] for p in ps])
        w = nt["weights"][j] if "weights" in nt else 1
        base = np.round(rng.uniform(nt["lo"], nt["hi"], C[j]) * w, 4)
        if nt["constant"]:
            base[:] = base[0]
        mats = []
        for _ in combs:
            e = base if nt["constant"] else rng.uniform(nt["lo"], nt["hi"], C[j]) * w
            if nt["strength"] > 1 and not nt["constant"]:
                e = e * nt["strength"] ** rng.uniform(-0.5, 0.5, C[j])
            q = matrix(rng, C[j], nt, e)
            if nt["constant"]:
                for s in range(C[j]):
                    q[s] *= base[0] / -q[s, s]
            mats.append(sutkit.ConditionalIntensityMatrix(cim=q))
        cims[L[j]] = sutkit.SetOfCims(node_id=L[j], parents_states_number=[C[p] for p in ps], node_states_number=C[j],
                                      p_combs=combs, cims=np.array(mats))
    variables = pd.DataFrame([[l, c] for l, c in zip(L, C)], columns=["Name", "Value"])
    dyn_str = pd.DataFrame([[L[i], L[j]] for i, j in edges], columns=["From", "To"])
    return variables, dyn_str, cims, rates_of(L, C, edges, cims), edges


def rates_of(L, C, edges, cims):
    """Per variable: (parents in variable order, {their states: matrix}), read next to the listed combinations."""
    out = []
    for j, l in enumerate(L):
        ps = sorted({i for i, k in edges if k == j})
        s = cims[l]
        combs = np.asarray(s.p_combs).reshape(-1, len(ps)) if ps else np.zeros((1, 0), int)
        table = {tuple(int(v) for v in row): np.array(m.cim, dtype=float)
                 for row, m in zip(combs, list(s.actual_cims))}
        check(sorted(table) == list(itertools.product(*[range(C[p]) for p in ps])), "matrices of " + l,
              combinations=sorted(table))
        out.append((ps, table))
    return out


def row(rates, j, x):
    ps, table = rates[j]
    return table[tuple(x[p] for p in ps)][x[j]]


def exits(rates, x):
    return [-row(rates, j, x)[x[j]] for j in range(len(x))]


def slowest(rates):
    """Smallest total exit rate of any state (a lower bound)."""
    return sum(min(min(-m[s, s] for s in range(len(m))) for m in table.values()) for _, table in rates)


def fastest(rates):
    return sum(max(max(-m[s, s] for s in range(len(m))) for m in table.values()) for _, table in rates)


def inspect(tr, L, C, rates, what="trajectory"):
    """Checks one sampled trajectory; returns (times, states) without reading the closing row's states."""
    check([str(c) for c in tr.columns] == ["Time"] + list(L), what + ": columns", got=list(tr.columns))
    vals = tr.values.tolist()
    check(len(vals) >= 1, what + ": empty")
    t = [float(r[0]) for r in vals]
    x = [[int(v) for v in r[1:]] for r in vals]
    for r, xs in zip(vals, x):
        check(all(float(v) == i for v, i in zip(r[1:], xs)), what + ": a state is not a whole number", row=r)
    check(all(math.isfinite(v) for v in t), what + ": a time is not a number", times=t[:10])
    check(x[-1] == [-1] * len(L), what + ": closing row", got=vals[-1])
    check(t[0] == 0, what + ": first time", got=t[0])
    if len(x) > 1:
        check(x[0] == [0] * len(L), what + ": first states", got=vals[0])
    for k in range(1, len(t)):
        check(t[k] >= t[k - 1], what + ": times go back", at=k, got=t[k - 1:k + 1])
    for k in range(1, len(x) - 1):
        a, b = x[k - 1], x[k]
        moved = [j for j in range(len(L)) if a[j] != b[j]]
        check(len(moved) == 1, what + ": variables changed in one row", at=k, before=a, after=b)
        j = moved[0]
        check(0 <= b[j] < C[j], what + ": state out of range", at=k, state=b[j], cardinality=C[j], variable=L[j])
        check(row(rates, j, a)[b[j]] > 0, what + ": a change of rate zero", at=k, before=a, after=b, variable=L[j])
    return t, x


# labels that a key "A=0,B=1" can hold
def plain_labels(n):
    return gen.labels(n).filter(lambda ls: not any("=" in l or "," in l for l in ls))
