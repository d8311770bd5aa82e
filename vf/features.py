"""Random feature sets with a definition-level reference for every declared type."""
import math

import numpy as np
from reagent.parameters import NormalizationParameters

MAXV, EPS = 6.0, 1e-6
ORDINARY = ["BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG"]


def make_param(rng, ft):
    kw = dict(feature_type=ft)
    if ft == "CONTINUOUS":
        kw.update(mean=rng.uniform(-20, 20), stddev=rng.choice([1.0, 0.3, 5.0, 40.0]))
        if rng.random() < 0.1:
            kw.update(mean=rng.choice([-1, 1]) * rng.uniform(500, 5000), stddev=rng.uniform(300, 3000))
    elif ft == "BOXCOX":
        kw.update(mean=rng.uniform(-2, 2), stddev=rng.choice([1.0, 2.5]), boxcox_lambda=rng.choice([0.5, -0.5, 0.25, 2.0, 1.5, -1.0]), boxcox_shift=rng.uniform(0.0, 3.0))
    elif ft == "ENUM":
        kw.update(possible_values=sorted(rng.sample(range(0, 30), rng.randint(1, 6))) if rng.random() < 0.85 else sorted(rng.sample(range(0, rng.choice([30, 10 ** 6])), rng.randint(7, 25))))
        if rng.random() < 0.3:
            rng.shuffle(kw["possible_values"])
    elif ft == "QUANTILE":
        n = rng.randint(2, 9) if rng.random() < 0.85 else rng.randint(10, 40)
        kw.update(quantiles=[float(x) for x in np.cumsum([rng.uniform(-30, 30)] + [rng.uniform(0.05, 9) for _ in range(n - 1)])])
        kw.update(min_value=kw["quantiles"][0], max_value=kw["quantiles"][-1])
    elif ft == "CONTINUOUS_ACTION":
        lo = rng.uniform(-20, 20)
        kw.update(min_value=lo, max_value=lo + rng.uniform(0.1, 30))
    return NormalizationParameters(**kw)


def make_raw(rng, p):
    """A raw value for the feature: ordinary, boundary and far-out values."""
    ft = p.feature_type
    r = rng.random()
    if ft == "BINARY":
        return rng.choice([0.0, 1.0, 1.0, -3.0, 0.5, 7.0])
    if ft == "PROBABILITY":
        return rng.choice([rng.random(), rng.random(), 0.0, 1.0, 0.01, 0.99, 0.5, rng.uniform(0, 0.03), rng.uniform(0.97, 1)])
    if ft == "CONTINUOUS":
        if r < 0.2:
            return p.mean + rng.choice([-1, 1]) * p.stddev * rng.choice([5.9, 6.5, 1000.0])
        return rng.gauss(p.mean, 2 * p.stddev)
    if ft == "BOXCOX":
        if r < 0.15:
            return -p.boxcox_shift - rng.choice([0.0, 1.0, 50.0])
        return rng.uniform(0.05, 6.0) - rng.choice([0.0, p.boxcox_shift])
    if ft == "ENUM":
        return float(rng.choice(p.possible_values)) if r < 0.75 else rng.choice([-1.0, 31.0, 0.5, 1e6 + 1, float(p.possible_values[0]) + 0.5, -float(p.possible_values[-1]) - 0.25])
    if ft == "QUANTILE":
        q = p.quantiles
        if r < 0.25:
            return rng.choice(q)
        if r < 0.4:
            return rng.choice([q[0] - 5, q[-1] + 5, q[0] - 1e4, q[-1] + 1e4])
        return rng.uniform(q[0], q[-1])
    if ft == "CONTINUOUS_ACTION":
        if r < 0.3:
            return rng.choice([p.min_value, p.max_value, (p.min_value + p.max_value) / 2])
        if r < 0.4:
            return rng.choice([p.min_value - 3, p.max_value + 3])
        return rng.uniform(p.min_value, p.max_value)
    if ft == "DISCRETE_ACTION":
        return rng.uniform(-5.9, 5.9)
    if ft == "DO_NOT_PREPROCESS":
        return rng.choice([rng.gauss(0, 3), 1e5, -7.5, 0.0, -3e5, 2.0 ** 19 + 1, 1e-7])
    if ft == "CLIP_LOG":
        return rng.choice([rng.uniform(0.01, 300), 0.0, -2.0, 1.0, 1e-4, rng.uniform(300, 500), 1e5, rng.uniform(0.001, 0.01)])
    raise AssertionError(ft)


def width(p):
    return len(p.possible_values) if p.feature_type == "ENUM" else 1


def reference(p, x, present):
    """Output columns for one raw value; (values, tolerance). x is float32-exact."""
    n = width(p)
    if not present:
        return [0.0] * n, 1e-12
    ft = p.feature_type
    tol = 2e-5
    if ft == "BINARY":
        v = 0.0 if x == 0 else 1.0
    elif ft == "PROBABILITY":
        c = min(max(x, 0.01), 0.99)
        v = math.log(c / (1 - c))
        tol = 1e-4
    elif ft == "CONTINUOUS":
        v = (x - p.mean) / p.stddev
        tol = 2e-5 + 3e-7 * (abs(x) + abs(p.mean)) / p.stddev
    elif ft == "BOXCOX":
        b = max(x + p.boxcox_shift, 1e-6)
        v = ((b ** p.boxcox_lambda - 1) / p.boxcox_lambda - p.mean) / p.stddev
        cond = abs(b ** (p.boxcox_lambda - 1)) * 1e-6 / p.stddev
        tol = 1e-4 + 2e-5 * abs(v) + min(cond, 1e9)
    elif ft == "ENUM":
        return [1.0 if x == float(e) else 0.0 for e in p.possible_values], 1e-12
    elif ft == "QUANTILE":
        q = [float(np.float32(a)) for a in p.quantiles]
        if x >= q[-1]:
            v = 1.0
        elif x <= q[0]:
            v = 0.0
        else:
            i = max(j for j in range(len(q)) if q[j] <= x)
            v = (i + (x - q[i]) / (q[i + 1] - q[i])) / (len(q) - 1)
        tol = 2e-4
    elif ft == "CONTINUOUS_ACTION":
        v = -(1 - EPS) + (x - p.min_value) / (p.max_value - p.min_value) * 2 * (1 - EPS)
        v = min(max(v, -1 + EPS), 1 - EPS)
        tol = 2e-5 + 1e-6 * (abs(x) + abs(p.min_value)) / (p.max_value - p.min_value)
    elif ft in ("DISCRETE_ACTION", "DO_NOT_PREPROCESS"):
        v = x
        tol = 1e-6 * (1 + abs(x))
    elif ft == "CLIP_LOG":
        v = math.log(max(x, EPS))
        tol = 1e-4
    else:
        raise AssertionError(ft)
    if ft != "DO_NOT_PREPROCESS":
        if abs(v) > MAXV and abs(abs(v) - MAXV) > tol:
            tol = 1e-6
        v = min(max(v, -MAXV), MAXV)
    return [v], tol


def feature_set(rng, types=None, n=None, max_n=9):
    types = types or ORDINARY
    n = n or rng.randint(1, max_n)
    ids = rng.sample(range(-3, 400), n)
    return {i: make_param(rng, rng.choice(types)) for i in ids}
