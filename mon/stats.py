"""Distribution tests with explicit, non-asymptotic error bounds.

Every test rejects a true hypothesis with probability below ALPHA (DKW inequality for
distribution functions, Chernoff bound for proportions), so that thousands of them can
be run without raising an alarm on code which draws from the right distribution.
"""
import math

from .core import Violation

ALPHA = 1e-10


def dkw_eps(n, alpha=ALPHA):
    return math.sqrt(math.log(2.0 / alpha) / (2.0 * n))


def check_cdf(samples, cdf, what, key="distribution", left=None, alpha=ALPHA, **detail):
    """samples: numbers; cdf(x)=P(X<=x); left(x)=P(X<x) (same as cdf when continuous)."""
    xs = sorted(samples)
    n = len(xs)
    if n == 0:
        return 0.0
    eps = dkw_eps(n, alpha)
    worst, at = 0.0, None
    i = 0
    while i < n:
        j = i
        while j + 1 < n and xs[j + 1] == xs[i]:
            j += 1
        x = xs[i]
        hi = (j + 1) / n  # empirical P(X<=x)
        lo = i / n  # empirical P(X<x)
        F = cdf(x)
        Fl = left(x) if left is not None else F
        d = max(abs(hi - F), abs(lo - Fl))
        if d > worst:
            worst, at = d, x
        i = j + 1
    if worst > eps + 1e-9:
        raise Violation(
            "%s: the empirical distribution of %d draws is off by %.4f at %s (bound %.4f)"
            % (what, n, worst, at, eps),
            key=key,
            **detail
        )
    return worst / eps


def check_discrete(samples, pmf, what, key="distribution", alpha=ALPHA, support=True, **detail):
    """pmf: dict value -> probability. Distribution function (DKW), impossible values,
    and values which should have been seen."""
    n = len(samples)
    if n == 0:
        return
    vals = sorted(pmf)
    cum = {}
    c = 0.0
    for v in vals:
        c += pmf[v]
        cum[v] = c
    counts = {}
    for s in samples:
        counts[s] = counts.get(s, 0) + 1
    if support:
        for s in counts:
            if s not in pmf or pmf[s] <= 0:
                raise Violation(
                    "%s: value %s was drawn %d times out of %d but is impossible"
                    % (what, s, counts[s], n),
                    key=key,
                    **detail
                )
        for v in vals:
            p = pmf[v]
            if p > 0 and counts.get(v, 0) == 0 and n * math.log1p(-min(p, 1 - 1e-12)) < math.log(alpha):
                raise Violation(
                    "%s: value %s (probability %.4f) never appeared in %d draws" % (what, v, p, n),
                    key=key,
                    **detail
                )
    e = 0
    eps = dkw_eps(n, alpha)
    emp = 0.0
    for v in sorted(set(vals) | set(counts)):
        emp += counts.get(v, 0) / n
        F = 0.0
        for w in vals:
            if w <= v:
                F = cum[w]
            else:
                break
        if abs(emp - F) > eps + 1e-9:
            raise Violation(
                "%s: the empirical distribution of %d draws is off by %.4f at %s (bound %.4f)"
                % (what, n, abs(emp - F), v, eps),
                key=key,
                histogram={str(k): counts[k] for k in sorted(counts)[:60]},
                **detail
            )
    for v in set(vals):
        check_proportion(counts.get(v, 0), n, pmf[v], "%s, value %s" % (what, v), key=key, alpha=alpha, **detail)


def kl(a, p):
    if a <= 0:
        return -math.log1p(-p) if p < 1 else float("inf")
    if a >= 1:
        return -math.log(p) if p > 0 else float("inf")
    if p <= 0 or p >= 1:
        return float("inf")
    return a * math.log(a / p) + (1 - a) * math.log((1 - a) / (1 - p))


def check_proportion(k, n, p, what, key="distribution", alpha=ALPHA, **detail):
    """k successes out of n with success probability p (Chernoff bound)."""
    if n == 0:
        return
    a = k / n
    if abs(a - p) * n < 1e-9:
        return
    if n * kl(a, p) > math.log(2.0 / alpha):
        raise Violation(
            "%s: %d out of %d instead of a probability of %.4f" % (what, k, n, p),
            key=key,
            **detail
        )


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))
