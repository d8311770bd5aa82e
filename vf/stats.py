"""Frequency tests with a known, tiny false-alarm probability (fixed seeds make them repeatable)."""
import math

from scipy import stats as st

ALPHA = 1e-9


def binom_ok(k, n, p, alpha=ALPHA):
    """k successes of n at probability p: two-sided exact test."""
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    lo, hi = st.binom.cdf(k, n, p), st.binom.sf(k - 1, n, p)
    return min(lo, hi) > alpha


def multinomial_ok(counts, probs, alpha=ALPHA):
    """Every cell by an exact binomial test, Bonferroni corrected; zero-probability cells must be empty."""
    n = sum(counts)
    m = max(1, len(counts))
    for i, (k, p) in enumerate(zip(counts, probs)):
        if not binom_ok(k, n, p, alpha / m):
            return False, f"cell {i}: {k} of {n}, expected {n * p:.1f} (p={p:.5g})"
    return True, ""
