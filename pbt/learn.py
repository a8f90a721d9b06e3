"""Learner configurations and runs."""
import random

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import sut

LEVELS = [0.1, 0.05, 0.3, 0.01, 0.5, 1e-3, 1e-6, 0.9]


@st.composite
def ctpc(draw, thresholds=(0, 0, 1, 2, 5, 25)):
    return {"kind": "ctpc", "exp": draw(st.sampled_from(LEVELS)), "chi": draw(st.sampled_from(LEVELS)),
            "thumb": draw(st.sampled_from(thresholds))}


@st.composite
def score(draw, iterations=(0, 1, 5, 20, 40, 60), kinds=("hill", "tabu")):
    k = draw(st.sampled_from(kinds))
    out = {"kind": k, "tau": draw(st.sampled_from([0.1, 1, 1.0, 0.01, 5, 50])),
           "alpha": draw(st.sampled_from([1, 1.0, 0.1, 3, 20])),
           "max_parents": draw(st.sampled_from([None, None, 0, 1, 2, 3, 9])),
           "iterations": draw(st.sampled_from(iterations)), "patience": draw(st.sampled_from([None, None, 0, 1, 5, 30]))}
    if k == "tabu":
        out["tabu_length"] = draw(st.sampled_from([None, 1, 2, 3, 7, 50]))
        out["tabu_duration"] = draw(st.sampled_from([None, 1, 2, 3, 7, 50]))
    return out


def any_learner(**kw):
    return st.one_of(ctpc(), score(**kw), score(**kw))


@st.composite
def known(draw, n, most=8):
    """A list of known edges [from, to] (possibly every edge)."""
    pairs = [[i, j] for i in range(n) for j in range(n) if i != j]
    kind = draw(st.integers(0, 5))
    if not pairs or kind == 0:
        return []
    if kind == 1:
        return pairs
    if kind == 2:
        j = draw(st.integers(0, n - 1))
        return [p for p in pairs if p[1] == j]
    idx = draw(st.lists(st.integers(0, len(pairs) - 1), unique=True, max_size=most))
    return [pairs[i] for i in idx]


@st.composite
def small_data(draw, max_vars=5, max_card=4, min_vars=1):
    """Data for learners: simulated mostly, arbitrary sometimes."""
    if draw(st.integers(0, 3)) == 0:
        return draw(gen.data(min_vars=min_vars, max_vars=max_vars, max_card=max_card, max_steps=40))
    return draw(gen.sim(min_vars=min_vars, max_vars=max_vars, max_card=max_card, max_steps=300))


@st.composite
def many_variables(draw, least=6, most=8):
    """Short data with many (mostly binary) variables."""
    n = draw(st.integers(least, most))
    d = draw(gen.sim(min_vars=n, max_vars=n, max_card=2, max_parents=2, max_trajs=2, max_steps=150))
    return d


def edges_arg(d, edges, form=0):
    out = [(d["labels"][i], d["labels"][j]) for i, j in edges]
    return [list(e) for e in out] if form == 1 else out


def estimator(s, cfg, known_edges="default"):
    from . import sutkit
    more = {} if isinstance(known_edges, str) else {"known_edges": known_edges}
    if cfg["kind"] == "ctpc":
        return sutkit.StructureConstraintBasedEstimator(sample_path=s, exp_test_alfa=cfg["exp"],
                                                        chi_test_alfa=cfg["chi"], thumb_threshold=cfg["thumb"], **more)
    return sutkit.StructureScoreBasedEstimator(sample_path=s, tau_xu=cfg["tau"], alpha_xu=cfg["alpha"], **more)


def estimate(est, cfg, seed=0, processes=None):
    """The learned edges as pairs of labels."""
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    par = {"disable_multiprocessing": True} if processes is None else {"processes_number": processes}
    if cfg["kind"] == "ctpc":
        return est.estimate_structure(**par)
    return est.estimate_structure(**score_args(cfg), **par)


def score_args(cfg):
    a = dict(max_parents=cfg["max_parents"], iterations_number=cfg["iterations"], patience=cfg["patience"],
             optimizer=cfg["kind"])
    if cfg["kind"] == "tabu":
        a.update(tabu_length=cfg["tabu_length"], tabu_rules_duration=cfg["tabu_duration"])
    return a


def pairs(res):
    return {(str(a), str(b)) for a, b in res}


def parents(res, d, child):
    """Indices of the learned parents of one variable."""
    L = d["labels"]
    return {L.index(a) for a, b in pairs(res) if b == L[child]}
