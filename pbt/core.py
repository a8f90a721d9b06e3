"""Engine: runs one property over generated cases, shrinks failures, writes replay and evidence files."""
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import boot, plan


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case is outside the domain of the oracle (counted, never a violation)."""


class _Stop(BaseException):
    """Leaves Hypothesis at once (budget spent or shrinking long enough)."""


class _Hang(BaseException):
    """The per-case time guard fired."""


def fail(msg, **details):
    if details:
        msg += " | " + ", ".join("%s=%r" % kv for kv in details.items())
    raise Violation(msg[:4000])


def check(cond, msg, **details):
    if not cond:
        fail(msg, **details)


@contextlib.contextmanager
def sut(what):
    """Calls into the code under test on valid input: an exception is a violation."""
    try:
        yield
    except (Violation, Discard, _Stop, _Hang):
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # also SystemExit: a library call must not end the process
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb if "/PyCTBN/" in f.filename]
        raise Violation("%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:500], " > ".join(where[-4:])))


@contextlib.contextmanager
def refused(what, kinds=Exception):
    """The code under test has to refuse this (with one of the given exception kinds)."""
    try:
        yield
    except kinds:
        return
    except (Violation, Discard, _Stop, _Hang, MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        raise Violation("%s: refused with %s: %s instead of %s" % (what, type(e).__name__, str(e)[:300], kinds))
    raise Violation("%s: accepted" % what)


class Stats:
    """What the cases of a run looked like."""

    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


def derive(*parts):
    h = hashlib.sha256(":".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    raise TypeError(type(o))


def seed_all(case):
    """The generators of the code under test start every case from a state that depends on the case only."""
    import numpy as np
    d = derive("case", canonical(case))
    random.seed(d)
    np.random.seed(d % (2 ** 32))


def load(prop):
    return importlib.import_module("pbt.props.%s" % prop.lower())


def run_case(mod, case, guard):
    """One execution. Returns (Stats, None) or (Stats, message)."""
    stats = Stats()
    seed_all(case)

    def on_alarm(*_):
        signal.alarm(10)  # again, should the code under test swallow the exception or wait for something on its way out
        for child in multiprocessing.active_children():
            child.kill()
        raise _Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(guard)
    try:
        mod.run(case, stats)
        return stats, None
    except Violation as v:
        return stats, str(v)
    except Discard as d:
        stats.label("discarded:" + (str(d) or "case"))
        stats.nontrivial = False
        return stats, None
    except _Hang:
        return stats, "HANG the case did not end within %d s" % guard
    except (ValueError, TypeError, LookupError, AttributeError, ArithmeticError, FileNotFoundError) as e:
        # calls into the code under test are guarded by sut(): this is the reading of what they returned or wrote
        at = traceback.extract_tb(e.__traceback__)[-1]
        mine = [f for f in traceback.extract_tb(e.__traceback__) if os.sep + "pbt" + os.sep in f.filename] or [at]
        return stats, "UNREADABLE a result does not have its form: %s: %s (%s:%d)" % (
            type(e).__name__, e, os.path.basename(mine[-1].filename), mine[-1].lineno)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def explore(prop, tier, seed, shard, n_cases, budget, shrink_budget, current=None):
    """Runs one shard; returns a JSON-able result. Every case is left in the file 'current' before it is run, for the
    parent process, which ends a shard whose time guard did not work."""
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    if shard % 4 != 3:
        # Most shards draw independent cases; the others keep Hypothesis's mutation of earlier cases, which finds
        # coincidences between values but repeats itself a lot.
        from hypothesis.internal.conjecture import engine
        if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    mod = load(prop)
    guard = plan.GUARDS.get(prop, 120)
    t0 = time.time()
    state = {"n": 0, "labels": collections.Counter(), "hashes": set(), "samples": [], "first": None,
             "best": None, "best_len": None, "msg": None, "stopped": False, "shrinks": 0}

    def one(case):
        now = time.time()
        if state["first"] is not None and now - state["first"] > shrink_budget:
            raise _Stop()
        if state["first"] is None and now - t0 > budget:
            state["stopped"] = True
            raise _Stop()
        text = canonical(case)
        if current:
            with open(current, "w") as f:
                f.write(text)
        stats, msg = run_case(mod, json.loads(text), guard)
        if state["first"] is None:
            state["n"] += 1
            state["labels"].update(stats.labels)
            if stats.nontrivial:
                h = hashlib.sha1(text.encode()).hexdigest()[:16]
                if h not in state["hashes"]:
                    state["hashes"].add(h)
                    if len(state["samples"]) < 3 or (len(state["samples"]) < 6 and len(text) < 600):
                        state["samples"].append(text if len(text) < 1500 else text[:1500] + "...")
        if msg is not None:
            if state["first"] is None:
                state["first"] = time.time()
            else:
                state["shrinks"] += 1
            if state["best"] is None or len(text) < state["best_len"]:
                state["best"], state["best_len"], state["msg"] = json.loads(text), len(text), msg
            if msg.startswith("HANG"):
                raise _Stop()
            raise Violation(msg)

    settings_ = settings(max_examples=n_cases, database=None, deadline=None, derandomize=False,
                         phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                         report_multiple_bugs=False, print_blob=False)
    strategy = mod.strategy(tier)

    @hypothesis.seed(derive(seed, prop, tier, shard))
    @settings_
    @given(strategy)
    def test(case):
        one(case)

    error = None
    # explicit cases of the property first (corner cases no generator should have to find)
    try:
        for case in getattr(mod, "CASES", [])[shard % 8::8]:
            one(case)
        test()
    except (_Stop, Violation):
        pass
    except BaseException as e:
        if state["best"] is None:
            error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    return {"n": state["n"], "labels": dict(state["labels"]), "hashes": sorted(state["hashes"]),
            "samples": state["samples"], "best": state["best"], "msg": state["msg"], "error": error,
            "stopped": state["stopped"], "wall": time.time() - t0}
