"""Reference models: pure Python, written from the definitions."""
import itertools
import math


def seconds(d):
    return 2.0 ** -d["unit"]


def intervals(d):
    """(duration as an integer, states at the start, states at the end) for every pair of consecutive rows."""
    for tr in d["trajs"]:
        t, x = tr["t"], tr["x"]
        for k in range(len(t) - 1):
            yield t[k + 1] - t[k], x[k], x[k + 1]


def duration(d):
    return sum(dt for dt, _, _ in intervals(d)) * seconds(d)


def stats(d, child, parents):
    """{joint parent state: (times, counts)} with parents in variable order; the diagonal counts departures."""
    ps = sorted(parents)
    cs = d["cards"]
    c = cs[child]
    out = {comb: ([0] * c, [[0] * c for _ in range(c)]) for comb in itertools.product(*[range(cs[p]) for p in ps])}
    for dt, a, b in intervals(d):
        T, M = out[tuple(a[p] for p in ps)]
        T[a[child]] += dt
        if b[child] != -1 and b[child] != a[child]:
            M[a[child]][b[child]] += 1
            M[a[child]][a[child]] += 1
    s = seconds(d)
    return {k: ([t * s for t in T], M) for k, (T, M) in out.items()}


def visited(st):
    return sum(1 for T, M in st.values() if sum(T) > 0 or any(map(any, M)))


def family_score(st, tau, alpha):
    """log marginal likelihood, closed form."""
    total = []
    for T, M in st.values():
        k = len(T)
        a = alpha / (k - 1)
        for x in range(k):
            m = M[x][x]
            total.append(math.lgamma(alpha + 1 + m) - math.lgamma(alpha + 1) + (alpha + 1) * math.log(tau)
                         - (alpha + 1 + m) * math.log(tau + T[x]))
            total.append(math.lgamma(alpha) - math.lgamma(alpha + m))
            for y in range(k):
                if y != x:
                    total.append(math.lgamma(a + M[x][y]) - math.lgamma(a))
    return math.fsum(total)


def predictive_score(d, child, parents, tau, alpha):
    """The same quantity as the chain of one-step predictive densities over the data, in their order."""
    ps = sorted(parents)
    k = d["cards"][child]
    shape, rate, dest = {}, {}, {}
    s = seconds(d)
    terms = []
    for dt, x, y in intervals(d):
        u = (tuple(x[p] for p in ps), x[child])
        a, r = shape.get(u, alpha + 1), rate.get(u, tau)
        dt = dt * s
        # survival of dt, then (if it leaves) the density of the exit and the destination
        terms.append(a * (math.log(r) - math.log(r + dt)))
        r += dt
        if y[child] != -1 and y[child] != x[child]:
            n = dest.setdefault(u, {})
            terms.append(math.log(a) - math.log(r))
            terms.append(math.log(alpha / (k - 1) + n.get(y[child], 0)) - math.log(alpha + sum(n.values())))
            n[y[child]] = n.get(y[child], 0) + 1
            a += 1
        shape[u], rate[u] = a, r
    return math.fsum(terms)


class Near(Exception):
    """A test statistic is too close to its quantile to be decided by floating point."""


def coefficients(T, M):
    k = len(T)
    return [[((M[x][y] if x != y else -M[x][x]) + 1) / (T[x] + 1) for y in range(k)] for x in range(k)]


_f = {}
_c = {}


def f_quantile(p, a, b):
    from scipy import special
    key = (p, a, b)
    if key not in _f:
        _f[key] = float(special.fdtri(a, b, p)) if a > 0 and b > 0 else float("nan")
    return _f[key]


def chi_quantile(p, df):
    from scipy import special
    key = (p, df)
    if key not in _c:
        _c[key] = float(special.chdtri(df, 1 - p))
    return _c[key]


def _cmp(a, b):
    """-1, 0 (undecidable), 1; None when one of them is not a number."""
    if math.isnan(a) or math.isnan(b):
        return None
    if math.isinf(a) or math.isinf(b):
        return 0 if a == b else (-1 if a < b else 1)
    if abs(a - b) <= 1e-7 * max(1e-6, abs(a), abs(b)):
        return 0
    return -1 if a < b else 1


def two_tests(s1, s2, exp_alpha, chi_alpha):
    """True iff neither test rejects; raises Near when undecidable and nothing else rejects."""
    T1, M1 = s1
    T2, M2 = s2
    k = len(T1)
    C1, C2 = coefficients(T1, M1), coefficients(T2, M2)
    near = False
    for x in range(k):
        r1, r2 = M1[x][x], M2[x][x]
        if C1[x][x] == 0:
            F = float("nan") if C2[x][x] == 0 else math.copysign(float("inf"), C2[x][x])
        else:
            F = C2[x][x] / C1[x][x] if C1[x][x] else float("inf")
        for q, side in ((f_quantile(exp_alpha / 2, r1, r2), -1), (f_quantile(1 - exp_alpha / 2, r1, r2), 1)):
            c = _cmp(F, q)
            if c == side:
                return False
            near |= c == 0
        if r1 > 0 and r2 > 0:
            K, L = math.sqrt(r1 / r2), math.sqrt(r2 / r1)
            chi = math.fsum((K * M2[x][y] - L * M1[x][y]) ** 2 / (M1[x][y] + M2[x][y])
                            for y in range(k) if y != x and M1[x][y] + M2[x][y] > 0)
            c = _cmp(chi, chi_quantile(1 - chi_alpha, k - 1))
            if c == 1:
                return False
            near |= c == 0
    if near:
        raise Near()
    return True


def p_values(s1, s2):
    """The levels at which the exponential and the chi-square tests turn from acceptance to rejection."""
    from scipy import special
    T1, M1 = s1
    T2, M2 = s2
    k = len(T1)
    C1, C2 = coefficients(T1, M1), coefficients(T2, M2)
    exp, chi = [], []
    for x in range(k):
        r1, r2 = M1[x][x], M2[x][x]
        if r1 > 0 and r2 > 0:
            F = C2[x][x] / C1[x][x] if C1[x][x] else float("inf")
            if math.isfinite(F):
                exp.append(2 * min(float(special.fdtr(r1, r2, F)), float(special.fdtrc(r1, r2, F))))
            K, L = math.sqrt(r1 / r2), math.sqrt(r2 / r1)
            v = math.fsum((K * M2[x][y] - L * M1[x][y]) ** 2 / (M1[x][y] + M2[x][y])
                          for y in range(k) if y != x and M1[x][y] + M2[x][y] > 0)
            chi.append(float(special.chdtrc(k - 1, v)))
    return exp, chi


class Tester:
    """Reference independence tests over a data set, with memoised statistics."""

    def __init__(self, d, exp_alpha, chi_alpha, threshold):
        self.d, self.ea, self.ca, self.thr = d, exp_alpha, chi_alpha, threshold
        self.memo = {}

    def stats(self, child, parents):
        key = (child, tuple(sorted(parents)))
        if key not in self.memo:
            self.memo[key] = stats(self.d, child, parents)
        return self.memo[key]

    def too_few(self, departures, child, parent, cond):
        cs = self.d["cards"]
        if cs[child] <= 2:
            return False
        df = (cs[child] - 1) ** 2 * cs[parent]
        for p in cond:
            df *= cs[p]
        return departures / df < self.thr

    def critical_level(self, parent, child, cond, which):
        """The largest level of one of the tests that does not lead to a rejection (None: out of the usual range)."""
        both = sorted(cond + [parent])
        s1, s2 = self.stats(child, sorted(cond)), self.stats(child, both)
        at = both.index(parent)
        ps = []
        for comb, small in s1.items():
            for v in range(self.d["cards"][parent]):
                ps += p_values(small, s2[comb[:at] + (v,) + comb[at:]])[which == "chi"]
        return min(ps) if ps and 1e-6 < min(ps) < 0.95 else None

    def independent(self, parent, child, cond):
        """(answer, lack): lack is True when only lack of data, False when only the tests, None when both speak
        against independence (which of the two is met first is not specified)."""
        cond = sorted(cond)
        both = sorted(cond + [parent])
        s1, s2 = self.stats(child, cond), self.stats(child, both)
        at = both.index(parent)
        near = rejected = lack = False
        for comb, small in s1.items():
            if self.too_few(sum(small[1][x][x] for x in range(len(small[0]))), child, parent, cond):
                lack = True
                continue
            for v in range(self.d["cards"][parent]):
                try:
                    if not two_tests(small, s2[comb[:at] + (v,) + comb[at:]], self.ea, self.ca):
                        rejected = True
                except Near:
                    near = True
        if lack and (rejected or near):
            return False, None
        if lack or rejected:
            return False, lack
        if near:
            raise Near()
        return True, False


def ctpc(tester, child, known, trace=None):
    """All the parent sets the CTPC algorithm may return for one variable (more than one only where it is not
    specified whether an edge was first found untestable or dependent). Known parents are never tested."""
    n = len(tester.d["cards"])
    results = set()

    def go(u, b, pos, stuck):
        while b < len(u):
            while pos < len(u):
                p = u[pos]
                if p in known or p in stuck:
                    pos += 1
                    continue
                outcomes = []
                removed = False
                for cond in itertools.combinations([v for v in u if v != p], b):
                    ans, lack = tester.independent(p, child, list(cond))
                    if trace is not None:
                        trace.append((p, cond, ans, lack))
                    if ans:
                        removed = True
                        break
                    outcomes.append(lack)
                if removed:
                    u = [v for v in u if v != p]
                    continue
                if True in outcomes:
                    stuck = stuck | {p}
                elif None in outcomes:
                    go(list(u), b, pos + 1, stuck | {p})
                pos += 1
            b += 1
            pos = 0
        results.add(frozenset(u))

    go([v for v in range(n) if v != child], 0, 0, frozenset())
    return results
