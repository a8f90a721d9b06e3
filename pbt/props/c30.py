"""Interrupted and failed learnings (fault injection)."""
import builtins
import contextlib
import copy
import functools
import sys
from hypothesis import strategies as st
import numpy as np
from .. import core, gen, learn
from ..core import check, sut, Discard
from .c23 import snapshot, unchanged


class Stop(KeyboardInterrupt):
    """The user's interrupt."""


class Failure(Exception):
    """Any other failure."""


# where the faults strike: numeric calls and calls of the package's own workers (whichever exist)
PLACES = {"ctpc": ["bincount", "print", "compute_parameters_for_node", "fast_init", "add_edges", "remove_edges",
                   "independence_test", "complete_test", "find", "put"],
          "score": ["bincount", "print", "compute_parameters_for_node", "fast_init", "get_fam_score", "add_edges",
                    "remove_edges", "get_score_from_graph", "estimate_parents", "parameter"]}


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        # tests that lack data, in a search that stops among them, resumed by the same estimator
        d = draw(gen.mirrors())
        return {"d": d, "cfg": {"kind": "ctpc", "exp": draw(st.sampled_from([1e-2, 1e-3, 1e-6])), "chi": draw(st.sampled_from([1e-3, 1e-6])),
                                "thumb": draw(st.sampled_from([0.05, 0.2, 0.5, 1, 2]))},
                "then": None, "other": None, "known": [], "prior": draw(gen.edge_indices(len(d["cards"]), 1)),
                "seed": 0, "fresh": False, "faults": [
                    {"at": "subsets", "call": draw(st.integers(0, 1000)), "interrupt": True, "processes": None}
                    for _ in range(draw(st.integers(3, 8)))]}
    d = draw(gen.sim(min_vars=2, max_vars=5, max_card=3, max_trajs=2, min_steps=20, max_steps=200, strengths=(2, 4, 16)))
    n = len(d["cards"])
    cfg = draw(learn.ctpc(thresholds=(0, 2, 10, 25)) if draw(st.booleans()) else learn.score(iterations=(2, 5, 20)))
    faults = draw(st.lists(st.fixed_dictionaries({
        "at": st.sampled_from(PLACES["ctpc" if cfg["kind"] == "ctpc" else "score"]),
        "call": st.one_of(st.integers(0, 2), st.integers(0, 10), st.integers(0, 60)),
        "interrupt": st.booleans(), "processes": st.sampled_from([None] * 24 + [2])}), min_size=1, max_size=3))
    return {"d": d, "cfg": cfg, "then": draw(st.sampled_from([None, None] + ["other"])),
            "other": draw(learn.any_learner(iterations=(1, 5, 20))),
            "known": draw(learn.known(n, 3)) if draw(st.booleans()) else [],
            "prior": draw(gen.edge_indices(n, 4)) if draw(st.integers(0, 4)) else [],
            "seed": draw(st.integers(0, 2 ** 16)), "faults": faults, "fresh": draw(st.booleans())}


class Bomb:
    def __init__(self, call, error):
        self.left, self.error, self.fired, self.results = call, error, False, []

    def tick(self, *args):
        if self.fired:
            return
        if self.left <= 0:
            self.fired = True
            raise self.error
        self.left -= 1


def _ticking(inner, bomb):
    @functools.wraps(inner)
    def call(*a, **k):
        bomb.tick(*a)
        result = inner(*a, **k)
        bomb.results.append(result)
        return result
    return call


@contextlib.contextmanager
def planted(at, bomb):
    """Every call of the named function ticks the bomb."""
    owners = []
    if at == "bincount":
        owners = [np]
    elif at == "print":
        owners = [builtins]
    else:
        for m in list(sys.modules.values()):
            if not (getattr(m, "__name__", "") or "").startswith("PyCTBN."):
                continue
            for c in vars(m).values():
                if isinstance(c, type) and c.__module__.startswith("PyCTBN.") and at in vars(c) and c not in owners:
                    owners.append(c)
    olds = []
    try:
        for o in owners:
            old = vars(o)[at]
            static = isinstance(old, staticmethod)
            inner = old.__func__ if static else old
            if isinstance(old, (classmethod, property)) or not callable(inner):
                continue
            olds.append((o, old))
            setattr(o, at, staticmethod(_ticking(inner, bomb)) if static else _ticking(inner, bomb))
        yield
    finally:
        for o, old in olds:
            setattr(o, at, old)


class Log:
    """The edges tested, in order."""

    def __init__(self):
        self.seen, self.results = [], []

    def tick(self, *args):
        self.seen.append(tuple(a for a in args if isinstance(a, str))[:2])

    def between(self):
        """The calls that come amid the tests of one edge which all have the same size."""
        amid = [k for k in range(1, len(self.seen)) if self.seen[k] == self.seen[k - 1]]
        # preferably those of an edge that is removed in the end
        ends = {e for e, r in zip(self.seen, self.results) if r is True or r is np.True_}
        return [k for k in amid if self.seen[k] in ends] or amid


def failing(est, cfg, seed, fault, between):
    """One learning that fails; returns whether it did."""
    if fault["at"] == "parameter":
        if cfg["kind"] == "ctpc":
            return False
        bad = dict(learn.score_args(cfg))
        bad["optimizer"] = "no such optimizer"
        try:
            est.estimate_structure(disable_multiprocessing=True, **bad)
        except Exception:
            return True
        return False
    at, call = fault["at"], fault["call"]
    if at == "subsets":
        at = "complete_test"
        if not between:
            return False
        call = between[call % len(between)]
    bomb = Bomb(call, Stop() if fault["interrupt"] and fault["processes"] is None else Failure("injected"))
    try:
        with planted(at, bomb):
            learn.estimate(est, cfg, seed, fault["processes"])
    except (Stop, Failure):
        return True
    except (core._Hang, core._Stop):
        raise
    except BaseException:
        if bomb.fired or fault["processes"] is not None:
            return True     # the failure of a process, or one translated on its way
        raise
    return False


def run(case, stats):
    from .. import sutkit
    d = gen.expand(case["d"])
    L = d["labels"]
    cfg = case["cfg"]
    known = learn.edges_arg(d, case["known"])
    with sut("learning without a failure"):
        calm = sutkit.sample_path(d, case["prior"] or None)
        est0 = learn.estimator(calm, cfg, known)
        log = Log()
        with planted("complete_test", log):
            want = learn.pairs(learn.estimate(est0, cfg, case["seed"]))
        between = log.between()
        want_spurious = {(str(a), str(b)) for a, b in est0.spurious_edges()} if case["prior"] else None
        s = sutkit.sample_path(d, case["prior"] or None)
        est = learn.estimator(s, cfg, known)
        if case["then"]:
            calm_other = learn.estimator(sutkit.sample_path(d, case["prior"] or None), case["other"], known)
            want_other = learn.pairs(learn.estimate(calm_other, case["other"], case["seed"]))
    first = snapshot(s)
    keep = copy.deepcopy(known)
    fired = 0
    for fault in case["faults"]:
        with sut("a learning that fails"):
            fired += failing(est, cfg, case["seed"], fault, between)
        unchanged(first, snapshot(s), "after a failed learning")
        check(known == keep, "the list of known edges changed", before=keep, after=known)
    if not fired:
        raise Discard("no fault fired")
    with sut("learning after a failure"):
        if case["fresh"]:
            est = learn.estimator(s, cfg, known)
        got = learn.pairs(learn.estimate(est, cfg, case["seed"]))
    check(got == want, "another structure after a failed learning", want=want, got=got, new_estimator=case["fresh"])
    unchanged(first, snapshot(s), "after a learning that followed a failed one")
    if case["prior"]:
        with sut("spurious_edges"):
            sp = {(str(a), str(b)) for a, b in est.spurious_edges()}
        check(sp == want_spurious, "spurious edges after a failed learning", want=want_spurious, got=sp)
    if case["then"]:
        with sut("another learner after a failure"):
            got = learn.pairs(learn.estimate(learn.estimator(s, case["other"], known), case["other"], case["seed"]))
        check(got == want_other, "another structure from another learner after a failed learning", want=want_other, got=got)
    stats.label(cfg["kind"], *("at " + f["at"] for f in case["faults"]), "failures=%d" % fired,
                "prior edges" if case["prior"] else "no prior", "new estimator" if case["fresh"] else "same estimator")
    stats.mark(bool(case["prior"]) or bool(want))
