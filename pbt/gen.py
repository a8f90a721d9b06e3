"""Strategies shared by the properties. Every case is plain JSON data.

A data set ("data") is
    {"labels": [...], "cards": [...], "time": name of the time column, "unit": power of two,
     "trajs": [{"t": [ints], "x": [[states of all the variables], ...]}, ...]}
Times are multiples of 2**-unit, so sums of time are exact in floating point.
A trajectory may end with the conventional row of -1.
Alternatively "sim" describes a simulation that `expand` turns into trajectories deterministically.
"""
from hypothesis import strategies as st
import math
import numpy as np

LABEL_POOLS = [
    ["X", "Y", "Z", "W", "V", "U", "T", "S", "R", "Q", "P", "O", "N", "M"],
    ["A", "AS", "ASS", "AA", "S", "SA", "B", "BS", "SS", "AB", "ABS", "BA", "C", "CS"],
    ["10", "9", "1", "01", "2", "20", "0", "-1", "1.5", "3", "30", "03", "100", "11"],
    ["z", "Y", "x", "W", "v", "U", "t", "S", "r", "Q", "p", "O", "n", "M"],
    ["node 1", "node 10", "node 2", "a.b", "a*b", "(c)", "[d]", "e+", "f|g", "h\\i", "$j", "^k", "l?", "m{2}"],
    ["è", "Ω", "日本", "ß", "ñ", "é", "☃", "µ", "Å", "ø", "ğ", "ł", "đ", "þ"],
    ["Name", "Value", "From", "To", "index", "id", "source", "target", "nodes", "links", "None", "nan", "True", "self"],
    ["a", "bc", "ab", "c", "b", "ac", "abc", "ca", "cb", "bca", "aa", "bb", "cc", "ba"],
    ["var_%02d" % i for i in range(14)],
    ["LongVariableNameNumber%dWithSuffix" % i for i in range(14)],
    ["x" * 70 + str(i) for i in range(14)],
    ["a", "A", "b", "B", "ab", "aB", "Ab", "AB", "\u00e9", "e\u0301", " a", "a ", "\u00c9", "c"],
]
TIME_KEYS = ["Time", "Time", "Time", "time", "t", "T0", "timestamp (s)", "ts"]


def labels(n):
    """n distinct labels, in any order."""
    return st.sampled_from(LABEL_POOLS).flatmap(
        lambda pool: st.permutations(pool).map(lambda p: list(p[:n])) if n <= len(pool) else st.nothing())


@st.composite
def cards(draw, n, max_card=4, big=0):
    """Cardinalities; with big > 0 at most one variable gets up to that many states."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        out = [2] * n
    elif kind == 1:
        out = [draw(st.integers(2, max_card))] * n
    else:
        out = [draw(st.integers(2, max_card)) for _ in range(n)]
    if big and draw(st.integers(0, 3)) == 3:
        out[draw(st.integers(0, n - 1))] = draw(st.integers(2, big))
    return out


# how the frames of a data set look: their index and the types of their columns
LOOKS = [None] * 6 + [{"index": "shuffled"}, {"index": "same"}, {"index": "backwards"}, {"index": "text"}, {"index": "later"},
                      {"states": "int8"}, {"states": "int16", "index": "shuffled"}, {"states": "int32"},
                      {"states": "float64"}, {"times": "int64"}, {"times": "int32", "states": "int16"}]


@st.composite
def look(draw, d):
    v = draw(st.sampled_from(LOOKS))
    if v is not None:
        v = dict(v)
        if "states" in v and max(d["cards"]) > 100:
            del v["states"]
        if "times" in v and d["unit"]:
            del v["times"]
    return v


def decode_traj(raw, cs, close, start):
    """Bytes to a trajectory: three bytes per step (elapsed time, which variable, which state)."""
    n = len(cs)
    x = [s % c for s, c in zip(start, cs)]
    t = raw[0] if raw else 0
    ts, xs = [t], [list(x)]
    for i in range(1, len(raw) - 2, 3):
        dt, who, val = raw[i], raw[i + 1], raw[i + 2]
        t += dt % 64 if dt < 192 else dt - 192 if dt < 250 else (dt - 249) * 1000 if dt < 255 else 2 ** 25 + val
        k = who % (n + 2)
        if k < n:
            x[k] = val % cs[k]
        elif k == n + 1:
            x = [(val // (j + 1)) % c for j, c in enumerate(cs)]
        ts.append(t)
        xs.append(list(x))
    if close and len(ts) > 1:
        xs[-1] = [-1] * n
    return {"t": ts, "x": xs}


@st.composite
def trajectory(draw, cs, max_steps):
    steps = draw(st.integers(0, max_steps))
    raw = draw(st.binary(min_size=1 + 3 * steps, max_size=1 + 3 * steps))
    start = draw(st.binary(min_size=len(cs), max_size=len(cs)))
    close = draw(st.booleans())
    return decode_traj(raw, cs, close, start)


@st.composite
def data(draw, min_vars=1, max_vars=6, max_card=4, big=0, max_trajs=4, max_steps=30, time_keys=TIME_KEYS,
         nonempty=True):
    n = draw(st.integers(min_vars, max_vars))
    cs = draw(cards(n, max_card, big))
    names = draw(labels(n))
    time = draw(st.sampled_from(time_keys).filter(lambda t: t not in names)) if len(time_keys) > 1 else time_keys[0]
    trajs = [draw(trajectory(cs, max_steps)) for _ in range(draw(st.integers(1, max_trajs)))]
    if nonempty and all(len(t["t"]) < 2 for t in trajs):
        trajs[0] = {"t": [0, draw(st.integers(0, 9))], "x": [[0] * n, [0] * n]}
    d = {"labels": names, "cards": cs, "time": time, "unit": draw(st.sampled_from([0, 0, 4, 8])), "trajs": trajs}
    return {**d, "look": draw(look(d))}


@st.composite
def sim(draw, min_vars=2, max_vars=4, max_card=3, max_parents=3, max_trajs=3, min_steps=20, max_steps=400,
        time_keys=TIME_KEYS, strengths=(1, 1, 2, 4, 16)):
    """A data set simulated by the harness from a random network (expanded by `expand`)."""
    n = draw(st.integers(min_vars, max_vars))
    cs = draw(cards(n, max_card))
    names = draw(labels(n))
    time = draw(st.sampled_from(time_keys).filter(lambda t: t not in names))
    edges = draw(edge_indices(n, max_parents))
    d = {"labels": names, "cards": cs, "time": time, "unit": 6}
    return {**d, "look": draw(look(d)),
            "sim": {"edges": edges, "seed": draw(st.integers(0, 2 ** 20)),
                    "steps": [draw(st.integers(min_steps, max_steps)) for _ in range(draw(st.integers(1, max_trajs)))],
                    "strength": draw(st.sampled_from(strengths)), "close": draw(st.booleans()),
                    "frozen": draw(st.lists(st.integers(0, n - 1), max_size=1)) if draw(st.integers(0, 5)) == 0 else [],
                    "skew": draw(st.sampled_from([0, 0, 1, 3])),
                    # states that are declared but never seen
                    "idle": draw(idle_states(cs)) if draw(st.integers(0, 3)) == 0 else []}}


@st.composite
def mirrors(draw, min_vars=4, max_vars=5, max_card=4, min_steps=500, max_steps=4000):
    """Data in which fast variables follow the slow ones that drive them: relatives that are no neighbours depend on
    each other until the variable between them is conditioned upon."""
    n = draw(st.integers(min_vars, max_vars))
    cs = draw(cards(n, max_card))
    names = draw(labels(n))
    order = list(draw(st.permutations(range(n))))
    kind = draw(st.integers(0, 2))
    if kind == 0:       # one driver
        edges = [[order[0], v] for v in order[1:1 + draw(st.integers(2, n - 1))]]
    elif kind == 1:     # a chain
        edges = [[a, b] for a, b in zip(order, order[1:1 + draw(st.integers(2, n - 1))])]
    else:
        edges = draw(edge_indices(n, 2))
    d = {"labels": names, "cards": cs, "time": "Time", "unit": 6}
    return {**d, "sim": {"edges": edges, "seed": draw(st.integers(0, 2 ** 20)), "frozen": [], "idle": [], "skew": 0,
                         "steps": [draw(st.integers(min_steps, max_steps))], "strength": 1, "close": draw(st.booleans()),
                         "pull": draw(st.sampled_from([4, 8, 16]))}}


def following_rates(rng, cs, edges, pull):
    """True intensities: a state on the other side (zero or not zero) than a parent's is left sooner, by the factor
    `pull`; variables without parents change seldom."""
    import itertools
    rates = []
    for j, c in enumerate(cs):
        ps = sorted(i for i, k in edges if k == j)
        base = rng.uniform(0.8, 1.25, c) * (1.0 if ps else rng.choice([0.1, 0.2, 0.5]))
        dest = rng.uniform(0.5, 1, (c, c)) * np.where(rng.uniform(size=c) < 0.3, 0.05, 1)
        np.fill_diagonal(dest, 0)
        dest /= dest.sum(1, keepdims=True)
        table = {}
        for comb in itertools.product(*[range(cs[p]) for p in ps]):
            e = base * np.array([float(pull) ** sum((v > 0) != (x > 0) for v in comb) for x in range(c)])
            q = dest * e[:, None]
            np.fill_diagonal(q, -e)
            table[comb] = q
        rates.append((ps, table))
    return rates


@st.composite
def idle_states(draw, cs):
    out = []
    for j, c in enumerate(cs):
        if c > 2 and draw(st.booleans()):
            out += [[j, s] for s in list(draw(st.permutations(range(c))))[:draw(st.integers(1, c - 2))]]
    return out


# row counts around sizes at which buffers, chunks or small integer types end: a power of two, less one to plus two
POWERS = [7, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15, 16, 16]


@st.composite
def large(draw, labels_of=None):
    """A data set too large to be written out: many rows, many joint states, cardinalities up to 300, or all of them."""
    kind = draw(st.sampled_from(["rows", "rows", "rows", "joint", "card", "trajs"]))
    if kind == "rows":
        cs = draw(cards(draw(st.integers(1, 4)), 4))
        rows = [draw(st.sampled_from([1, 1, 1, 3])) * 2 ** draw(st.sampled_from(POWERS)) + draw(st.sampled_from([2, 1, 0, -1]))]
        if draw(st.integers(0, 2)) == 0:
            rows = [rows[0] // 3 + 1, rows[0] - rows[0] // 3]   # as many intervals in all
    elif kind == "joint":
        # up to 2**17 cells
        cs = draw(st.sampled_from([[5] + [4] * 7, [2] * 14, [3] * 10, [2] * 8 + [3] * 4, [9, 9, 9, 9, 3], [7, 6, 5, 4, 3, 2, 2, 2]]))
        cs = list(draw(st.permutations(cs)))
        rows = [draw(st.sampled_from([300, 2000]))]
    elif kind == "card":
        cs = [draw(st.sampled_from([2, 3, 127, 128, 129, 130, 200, 255, 256, 257, 300])) for _ in range(draw(st.integers(1, 3)))]
        if math.prod(cs) > 40000:
            cs = cs[:1] + [2, 3][:len(cs) - 1]
        rows = [draw(st.sampled_from([1000, 4000]))]
    else:
        cs = draw(cards(draw(st.integers(1, 4)), 4))
        rows = [draw(st.integers(2, 6))] * draw(st.sampled_from([65, 100, 129, 257, 300]))
    n = len(cs)
    pool = ["n%d" % i for i in range(n)] if n > 12 else draw(labels(n))
    return {"large": kind, "labels": pool, "cards": cs, "time": "the time", "unit": draw(st.sampled_from([0, 4, 10])),
            "rows": rows, "seed": draw(st.integers(0, 2 ** 20)), "close": draw(st.integers(0, 2)) == 0,
            "start": draw(st.sampled_from([0, 0, 5, 10 ** 6, 2 ** 31, 16 * 10 ** 8]))}


def large_series(n_vars, top=17):
    """A large data set for every length next to a power of two."""
    return [{"large": "rows", "labels": ["B", "A", "C"][:n_vars], "cards": [3, 2, 4][:n_vars], "time": "the time", "unit": 0,
             "rows": [2 ** p + off], "seed": 100 * p + off, "close": False, "start": 0}
            for p in range(7, top) for off in (-1, 0, 1, 2)]


def arrays(d):
    """The trajectories of a large data set: [(integer times, states)]."""
    rng = np.random.RandomState(d["seed"])
    n = len(d["cards"])
    out = []
    for rows in d["rows"]:
        x = np.empty((rows, n), dtype=np.int64)
        who = rng.randint(n, size=rows)
        free = rng.randint(12, size=rows) == 0      # nobody moves
        for j, c in enumerate(d["cards"]):
            step = np.where((who == j) & ~free, rng.randint(1, c, size=rows) if c > 1 else 0, 0)
            x[:, j] = (rng.randint(c) + np.cumsum(step)) % c
        if d["close"] and rows > 1:
            x[-1] = -1
        dt = rng.randint(0, 40, size=rows) ** rng.randint(1, 4)
        dt = dt + (rng.randint(64, size=rows) == 0) * rng.randint(0, 2 ** 36, size=rows)
        out.append((int(d["start"]) * 2 ** d["unit"] + np.cumsum(dt), x))
    return out


@st.composite
def edge_indices(draw, n, max_parents=3, density=None):
    """Edges [from, to] between indices, at most max_parents per child, listed in any order."""
    out = []
    for j in range(n):
        others = [i for i in range(n) if i != j]
        if not others:
            continue
        ps = draw(parents_of(n, j, max_parents))
        out += [[i, j] for i in ps]
    if len(out) > 1:
        out = draw(st.permutations(out))
    return [list(e) for e in out]


def random_rates(rng, cs, edges, strength, skew=0, idle=()):
    """True intensities by (variable, parent states in variable order): a factor `strength` between contexts."""
    import itertools
    rates = []
    for j, c in enumerate(cs):
        ps = sorted(i for i, k in edges if k == j)
        table = {}
        for comb in itertools.product(*[range(cs[p]) for p in ps]):
            q = np.zeros((c, c))
            for s in range(c):
                w = rng.uniform(0.2, 1, c)
                if skew:
                    w = w ** skew
                w[s] = 0
                for i, k in idle:
                    if i == j:
                        w[k] = 0
                w /= w.sum()
                r = rng.uniform(0.5, 2) * (strength ** rng.randint(0, 2) if strength > 1 else 1)
                q[s] = w * r
                q[s, s] = -r
            table[comb] = q
        rates.append((ps, table))
    return rates


def simulate(rng, cs, rates, steps, close, unit, frozen=(), rate_scale=1.0, idle=()):
    """Gillespie simulation; times are rounded to multiples of 2**-unit."""
    n = len(cs)
    x = [rng.randint(c) for c in cs]
    for j in range(n):
        while [j, x[j]] in idle:
            x[j] = (x[j] + 1) % cs[j]
    t = 0.0
    ts, xs = [0], [list(x)]
    for _ in range(steps):
        rows = []
        tot = []
        for j in range(n):
            ps, table = rates[j]
            row = table[tuple(x[p] for p in ps)][x[j]]
            rows.append(row)
            tot.append(0.0 if j in frozen else -row[x[j]])
        total = sum(tot)
        if total <= 0:  # nothing can happen any more: one long interval
            ts.append(ts[-1] + 64)
            xs.append(list(x))
            break
        t += rng.exponential(1 / (total * rate_scale))
        u = rng.uniform(0, total)
        j = 0
        while j < n - 1 and u >= tot[j]:
            u -= tot[j]
            j += 1
        while tot[j] == 0:
            j -= 1
        row = np.clip(rows[j], 0, None)
        u = rng.uniform(0, row.sum())
        s = 0
        cum = row[0]
        while cum <= u and s < cs[j] - 1:
            s += 1
            cum += row[s]
        if s == x[j]:
            s = max(range(cs[j]), key=lambda k: row[k])
        x[j] = s
        ts.append(int(round(t * 2 ** unit)))
        xs.append(list(x))
    if close and len(ts) > 1:
        xs[-1] = [-1] * n
    return {"t": ts, "x": xs}


def expand(d):
    """A copy of the data set with explicit trajectories."""
    if "trajs" in d:
        return d
    s = d["sim"]
    rng = np.random.RandomState(s["seed"])
    if s.get("pull"):
        rates = following_rates(rng, d["cards"], s["edges"], s["pull"])
    else:
        rates = random_rates(rng, d["cards"], s["edges"], s["strength"], s.get("skew", 0), s.get("idle", []))
    out = {k: v for k, v in d.items() if k != "sim"}
    out["trajs"] = [simulate(rng, d["cards"], rates, k, s["close"], d["unit"], s["frozen"],
                             idle=s.get("idle", [])) for k in s["steps"]]
    out["rates"] = rates
    return out


def parents_of(n, child, max_parents):
    others = [i for i in range(n) if i != child]
    if not others:
        return st.just([])
    m = min(len(others), max_parents)
    return st.tuples(st.integers(0, m), st.integers(0, m), st.permutations(others)).map(
        lambda t: list(t[2][:max(t[0], t[1])]))
