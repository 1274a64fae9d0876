"""Exact tail bounds: a test of level ALPHA on n draws fails with at most that probability when the distribution is the expected one."""
import math

ALPHA = 1e-11


def _logpmf(k, n, p):
    if p <= 0:
        return 0.0 if k == 0 else -math.inf
    if p >= 1:
        return 0.0 if k == n else -math.inf
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(p) + (n - k) * math.log1p(-p)


def upper(k, n, p):
    """P(X >= k) for X ~ Binomial(n, p)"""
    if k <= 0:
        return 1.0
    if k <= n * p:
        return 1.0
    s = 0.0
    for i in range(k, n + 1):
        x = math.exp(_logpmf(i, n, p))
        s += x
        if x < s * 1e-12 or x == 0.0:
            break
    return min(1.0, s)


def lower(k, n, p):
    """P(X <= k)"""
    return upper(n - k, n, 1 - p)


def unlikely(k, n, lo, hi=None):
    """the count k of n draws is not explained by any probability in [lo, hi]"""
    hi = lo if hi is None else hi
    return upper(k, n, min(1.0, max(0.0, hi))) < ALPHA or lower(k, n, min(1.0, max(0.0, lo))) < ALPHA


def pmf_problem(counts, pmf):
    """counts / pmf: dictionaries. Tests every value and every cumulative share. Returns text or None"""
    n = sum(counts.values())
    bad = [v for v in counts if pmf.get(v, 0) <= 0]
    if bad:
        return "%d times %s, which is impossible" % (counts[bad[0]], bad[0])
    vals = sorted(pmf)
    c = 0
    f = 0.0
    for v in vals:
        k = counts.get(v, 0)
        if unlikely(k, n, pmf[v]):
            return "%s was drawn %d times of %d, expected %.1f" % (v, k, n, n * pmf[v])
        c += k
        f += pmf[v]
        if unlikely(c, n, max(0.0, f - 1e-12), min(1.0, f + 1e-12)):
            return "at most %s was drawn %d times of %d, expected %.1f" % (v, c, n, n * f)
    return None


def cdf_problem(xs, cdf, points, slack=0.0):
    """xs: draws; cdf: expected share below a point; a draw may be off by slack (rounding)"""
    n = len(xs)
    for t in points:
        k = sum(1 for x in xs if x <= t)
        if unlikely(k, n, cdf(t - slack), cdf(t + slack)):
            return "%d of %d draws are at most %.4g, expected %.1f" % (k, n, t, n * cdf(t))
    return None


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))
