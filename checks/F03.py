import json
import math

import numpy as np
import vf.quiet  # noqa
from reagent.parameters import NormalizationParameters
from reagent.preprocessing import identify_types as it
from reagent.preprocessing.normalization import (construct_action_scale_tensor, deserialize, get_feature_norm_metadata, get_feature_start_indices, get_num_output_features,
                                                 identify_parameter, serialize, sort_features_by_normalization)
from scipy import stats
from vf.features import feature_set, width

RULE = "a case is one random sample (distribution, size, override, options) identified and compared with statistics recomputed from the raw sample; non-trivial = sample not constant"
REQUIRED = {"action_scales": 30, "type:BINARY": 10, "type:PROBABILITY": 10, "type:ENUM": 20, "type:CONTINUOUS": 30, "type:BOXCOX": 15, "type:QUANTILE": 15, "type:CONTINUOUS_ACTION": 5,
            "type:DO_NOT_PREPROCESS": 5, "override": 40, "serialized": 200, "skip_box_cox_mattered": 4, "boxcox_above_one": 2, "metadata": 40, "at_enum_threshold": 15}


def sample(rng, nr):
    n = rng.choice([20, 21, 50, 300, 1500])
    kind = rng.choice(["bin", "const", "minus-one", "enum-wide", "zero-one-two", "prob", "enum", "enum-big", "negint", "normal", "lognormal", "exp", "bimodal", "heavy", "probedge", "squared", "left"])
    if kind == "bin":
        v = nr.randint(0, 2, n)
    elif kind == "const":
        v = np.full(n, rng.choice([0.0, 3.0, -2.5]))
    elif kind == "prob":
        v = nr.rand(n)
    elif kind == "probedge":
        v = nr.choice([0.0, 0.5, 1.0], n)
    elif kind == "enum":
        v = nr.choice(rng.sample(range(0, 200), rng.randint(2, 12)), n)
    elif kind == "enum-big":
        v = nr.randint(0, 400, n)
    elif kind == "enum-wide":
        v = nr.choice(rng.sample(range(0, 2_000_000), rng.randint(2, 12)), n)
    elif kind == "minus-one":
        v = nr.choice([-1] + rng.sample(range(0, 9), 4), n)
    elif kind == "zero-one-two":
        v = nr.randint(0, 3, n)
    elif kind == "negint":
        v = nr.randint(-5, 6, n)
    elif kind == "normal":
        v = nr.normal(rng.uniform(-10, 10), rng.choice([0.2, 1, 8]), n)
    elif kind == "lognormal":
        v = nr.lognormal(0, rng.choice([0.5, 1.0]), n) + rng.choice([0, -3])
    elif kind == "exp":
        v = nr.exponential(rng.choice([1, 20]), n)
    elif kind == "squared":
        v = nr.normal(10, 2, n) ** 2 * rng.choice([1, 4])
    elif kind == "left":  # thin upper tail: a Box-Cox exponent above one, up to two
        n = 1500
        v = np.abs(nr.normal(rng.choice([2.6, 3.0]), 1, n)) ** rng.choice([0.5, 0.6, 0.7]) + rng.choice([0, 5])
    elif kind == "bimodal":
        v = np.concatenate([nr.normal(-40, 1, n // 2), nr.normal(30, 1, n - n // 2)])
    else:
        v = nr.standard_cauchy(n) * 3
    return kind, np.asarray(v, dtype=rng.choice([np.float32, np.float64]))


def ref_type(v, thr):
    if set(np.unique(v)) <= {0, 1} or v.min() == v.max():
        return "BINARY"
    if v.min() >= 0 and v.max() <= 1:
        return "PROBABILITY"
    if v.min() >= 0 and len(set(v.tolist())) <= thr and all(float(x).is_integer() for x in v):
        return "ENUM"
    return "CONTINUOUS"


def ref_quantiles(v, q):
    x = np.sort(np.asarray(v, dtype=np.float64))
    n = len(x)
    out = []
    for i in range(q + 1):
        al = n * (i / q)
        k = int(math.floor(min(max(al, 1), n - 1)))
        g = min(max(al - k, 0), 1)
        out.append((1 - g) * x[k - 1] + g * x[k])
    return out


def judge(ctx, v, p, opts, override):
    raw_type = override or ref_type(v, opts["max_unique_enum_values"])
    v64 = v.astype(np.float64)
    rel = 1e-5

    def near(a, b, mech, scale=None):
        s = scale if scale is not None else 1 + abs(b)
        ctx.expect(a is not None and abs(a - b) <= rel * s, mech, f"got {a} want {b} params {p}", opts=opts, override=override)

    if raw_type == "CONTINUOUS" and v.min() == v.max():
        ctx.expect(p.feature_type == "CONTINUOUS" and p.mean == 0 and p.stddev == 1, "constant-feature", f"{p}")
        ctx.saw("type:CONTINUOUS")
        return
    ctx.expect(p.min_value == float(np.min(v)) and p.max_value == float(np.max(v)), "min-max", f"{p.min_value} {p.max_value} vs {v.min()} {v.max()}")
    ctx.saw("type:" + p.feature_type)
    if raw_type != "CONTINUOUS":
        ctx.require(p.feature_type == raw_type, "type", f"got {p.feature_type} want {raw_type}", opts=opts)
    else:
        k2 = stats.normaltest(v)[0]
        cand, lam = stats.boxcox(np.maximum(v + float(v.min() * -1), 1e-4))
        k2b = stats.normaltest(cand)[0]
        useful = (lam < 0.9 or lam > 1.1) and k2 > k2b * 10 and k2b <= opts["quantile_k2_threshold"]
        sd = np.std(cand, ddof=1)
        useful = useful and np.isfinite(sd) and sd < 1e8 and not np.isclose(sd, 0)
        ctx.saw("boxcox_above_one", useful and 1.1 < lam < 2.2 and not opts["skip_box_cox"])
        if useful and opts["skip_box_cox"]:
            ctx.saw("skip_box_cox_mattered")
        if useful and not opts["skip_box_cox"]:
            want = "BOXCOX"
        elif k2 > opts["quantile_k2_threshold"] and not opts["skip_quantiles"]:
            want = "QUANTILE"
        else:
            want = "CONTINUOUS"
        ctx.require(p.feature_type == want, "type", f"got {p.feature_type} want {want} (k2 {k2}, boxcox k2 {k2b}, lambda {lam})", opts=opts)
    ft = p.feature_type
    scale = 1 + np.abs(v64).max()
    if ft == "ENUM":
        ctx.expect(sorted(p.possible_values) == sorted({int(x) for x in v}) and len(set(p.possible_values)) == len(p.possible_values), "enum-values", f"{p.possible_values}")
    elif ft in ("CONTINUOUS", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"):
        near(p.mean, v64.mean(), "mean", scale)
        near(p.stddev, max(v64.std(ddof=1), 1.0), "stddev", scale)
        ctx.expect(p.boxcox_lambda is None and p.quantiles is None and p.possible_values is None, "stray-parameters", f"{p}")
    elif ft == "BOXCOX":
        ctx.expect(p.boxcox_shift is not None and abs(p.boxcox_shift + float(v.min())) <= 1e-6 * scale, "boxcox-shift", f"{p.boxcox_shift} vs {-v.min()}")
        t = (np.maximum(v64 + p.boxcox_shift, 1e-4) ** p.boxcox_lambda - 1) / p.boxcox_lambda
        near(p.mean, t.mean(), "boxcox-mean", 100 * (1 + np.abs(t).max()))
        near(p.stddev, max(t.std(ddof=1), 1.0), "boxcox-stddev", 100 * (1 + np.abs(t).max()))
    elif ft == "QUANTILE":
        want = ref_quantiles(v, opts["quantile_size"])
        q = p.quantiles
        ctx.expect(all(a < b for a, b in zip(q, q[1:])), "quantiles-sorted", f"{q}")
        ok = all(any(abs(a - b) <= 1e-5 * (1 + abs(b)) for b in q) for a in want) and all(any(abs(a - b) <= 1e-5 * (1 + abs(b)) for a in want) for b in q)
        ctx.expect(ok, "quantiles", f"got {q} want {want}")
    elif ft in ("BINARY", "PROBABILITY"):
        ctx.expect(p.mean == 0.0 and p.stddev == 1.0 and p.possible_values is None and p.quantiles is None, "stray-parameters", f"{p}")


def run(ctx):
    ctx.seed_all("f03")
    rng = ctx.sub("f")
    nr = np.random.RandomState(ctx.sub("np").randint(0, 2 ** 31))
    with ctx.part("identify"):
        for i in range(ctx.n(500, 6000)):
            kind, v = sample(rng, nr)
            opts = dict(max_unique_enum_values=rng.choice([100, 5, 300]), quantile_size=rng.choice([20, 4, 10]), quantile_k2_threshold=rng.choice([1000.0, 50.0, 5.0]),
                        skip_box_cox=rng.random() < 0.3, skip_quantiles=rng.random() < 0.3)
            override = rng.choice([None, None, None, "CONTINUOUS", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS", "PROBABILITY", "ENUM", "BINARY", "DISCRETE_ACTION"])
            uniq = len(set(v.tolist()))
            if kind.startswith("enum") and rng.random() < 0.4:
                opts["max_unique_enum_values"] = uniq + rng.choice([-1, 0, 0, 1])
                ctx.saw("at_enum_threshold")
            with ctx.case("identify", (kind, len(v), override, opts), distinct=(i, kind)):
                v0 = v.copy()
                p = identify_parameter("f", v, feature_type=override, **opts)
                ctx.expect(np.array_equal(v, v0), "input-mutated", kind)
                ctx.saw("override", int(override is not None))
                judge(ctx, v, p, opts, override)
                back = deserialize(serialize({i: p}))
                ctx.expect(back == {i: p}, "serialize-roundtrip", f"{p} -> {back}")
                ctx.saw("serialized")
    with ctx.part("metadata"):
        for i in range(ctx.n(60, 500)):
            kind, v = sample(rng, nr)
            v = v.astype(np.float32)
            name = rng.choice(["a", "b"])
            np_params = dict(feature_overrides=rng.choice([None, {"a": "CONTINUOUS"}, {"a": "ENUM", "b": "PROBABILITY"}]), max_unique_enum_values=100, quantile_size=10,
                             quantile_k2_threshold=1000.0, skip_box_cox=False, skip_quantiles=False)
            if rng.random() < 0.4:
                np_params["default_feature_override"] = rng.choice(["CONTINUOUS_ACTION", "DO_NOT_PREPROCESS", None])
            override = (np_params["feature_overrides"] or {}).get(name) or np_params.get("default_feature_override")
            with ctx.case("metadata", (kind, name, np_params["feature_overrides"], np_params.get("default_feature_override"), i)):
                p = get_feature_norm_metadata(name, v.tolist(), np_params)
                opts = {k: np_params[k] for k in ("max_unique_enum_values", "quantile_size", "quantile_k2_threshold", "skip_box_cox", "skip_quantiles")}
                judge(ctx, v, p, opts, override)
                ctx.saw("metadata")
                few = get_feature_norm_metadata(name, v.tolist()[: rng.randint(0, 19)], np_params)
                ctx.expect(few is None, "too-few-samples", f"{few}")
                for bad in (float("inf"), float("nan")):
                    try:
                        get_feature_norm_metadata(name, v.tolist() + [bad], np_params)
                        ctx.expect(False, "non-finite-accepted", f"{bad}")
                    except AssertionError:
                        ctx.saw("refused")
    with ctx.part("layout"):
        for i in range(ctx.n(200, 2000)):
            params = feature_set(rng, max_n=14)
            with ctx.case("layout", {k: v.feature_type for k, v in params.items()}, distinct=i):
                order, starts = sort_features_by_normalization(params)
                ctx.expect(sorted(order) == sorted(params), "layout-permutation", f"{order}")
                idx = [it.FEATURE_TYPES.index(params[f].feature_type) for f in order]
                ctx.expect(idx == sorted(idx) and all(not (a == b and x > y) for a, b, x, y in zip(idx, idx[1:], order, order[1:])), "layout-order", f"{order} {idx}")
                ctx.expect(starts == [sum(1 for k in idx if k < t) for t in range(len(it.FEATURE_TYPES))], "layout-starts", f"{starts}")
                fs = get_feature_start_indices(order, params)
                want = [sum(width(params[g]) for g in order[:j]) for j in range(len(order))]
                ctx.expect(fs == want and get_num_output_features(params) == sum(width(p) for p in params.values()), "layout-widths", f"{fs} vs {want}")
                back = deserialize(json.loads(json.dumps(serialize(params))))
                ctx.expect(back == params, "serialize-roundtrip", f"{back}")
                ctx.saw("serialized")
    with ctx.part("action-scale"):
        for i in range(ctx.n(60, 600)):
            ids = rng.sample(range(100), rng.randint(1, 6))
            params = {f: NormalizationParameters(feature_type=it.CONTINUOUS_ACTION, min_value=rng.uniform(-9, 0), max_value=rng.uniform(0.1, 9)) for f in ids}
            over = {f: (rng.uniform(-50, -10), rng.uniform(10, 50)) for f in ids if rng.random() < 0.4}
            with ctx.case("action-scale", (ids, sorted(over)), distinct=i):
                lo, hi = construct_action_scale_tensor(params, over)
                ctx.saw("action_scales")
                want = [over.get(f, (params[f].min_value, params[f].max_value)) for f in sorted(ids)]
                ctx.close(lo, np.array([[w[0] for w in want]]), "action-scale-min", rtol=1e-6)
                ctx.close(hi, np.array([[w[1] for w in want]]), "action-scale-max", rtol=1e-6)
