import numpy as np
import vf.quiet  # noqa
import torch
from reagent.preprocessing.normalization import get_feature_start_indices, get_num_output_features, sort_features_by_normalization
from reagent.preprocessing.preprocessor import Preprocessor
from vf.features import ORDINARY, feature_set, make_raw, reference, width

RULE = ("a case is one random feature set (types, parameters, ids) applied to a random batch with random presence; "
        "non-trivial = at least one present feature value was compared with its definition")
REQUIRED = dict({"value:" + t: 150 for t in ORDINARY}, **{"missing": 400, "clamped": 100, "row_alone": 100, "subset": 60})


def build(params, raw, pres):
    x = torch.tensor(raw, dtype=torch.float32)
    m = torch.tensor(pres, dtype=torch.uint8)
    return x, m


def run(ctx):
    ctx.seed_all("f01")
    rng = ctx.sub("f")
    for i in range(ctx.n(800, 8000)):
        params = feature_set(rng, max_n=9 if i % 40 else 45) if i % 3 else feature_set(rng, types=[rng.choice(ORDINARY)])
        B = rng.choice([1, 1, 2, 5, 8]) if rng.random() < 0.97 else rng.choice([33, 130])
        train = rng.random() < 0.5
        with ctx.case("features", {k: v.feature_type for k, v in params.items()}, distinct=(i, sorted(params))):
            pre = Preprocessor(params, device=torch.device("cpu")) if rng.random() < 0.5 else Preprocessor(params, use_gpu=False)
            pre.train(train)
            order, _ = sort_features_by_normalization(params)
            ctx.expect(sorted(order) == sorted(params), "order-is-permutation", f"{order}")
            raw = [[float(np.float32(make_raw(rng, params[f]))) for f in order] for _ in range(B)]
            pm = rng.choice([0.0, 0.2, 0.9])
            pres = [[0 if rng.random() < pm else 1 for f in order] for _ in range(B)]
            # a missing feature carries whatever filler the row had
            for r in range(B):
                for c in range(len(order)):
                    if not pres[r][c] and params[order[c]].feature_type not in ("DISCRETE_ACTION",):
                        raw[r][c] = float(np.float32(rng.choice([raw[r][c], -1337.1337, 0.0, 1e6])))
            x, m = build(params, raw, pres)
            x0, m0 = x.clone(), m.clone()
            out = pre(x, m)
            ctx.expect(torch.equal(x, x0) and torch.equal(m, m0), "input-mutated", "")
            ctx.require(tuple(out.shape) == (B, sum(width(params[f]) for f in order)) and out.shape[1] == get_num_output_features(params), "width",
                        f"{tuple(out.shape)} vs {[width(params[f]) for f in order]} / {get_num_output_features(params)}")
            starts = get_feature_start_indices(order, params)
            for c, f in enumerate(order):
                p = params[f]
                for r in range(B):
                    want, tol = reference(p, raw[r][c], pres[r][c])
                    got = out[r, starts[c]: starts[c] + width(p)].tolist()
                    if pres[r][c]:
                        ctx.saw("value:" + p.feature_type)
                        ctx.saw("clamped", int(abs(want[0]) == 6.0))
                    else:
                        ctx.saw("missing")
                    ok = len(got) == len(want) and all(abs(g - w) <= tol for g, w in zip(got, want))
                    ctx.expect(ok, "value:" + p.feature_type if pres[r][c] else "missing:" + p.feature_type,
                               f"feature {f} {p} raw {raw[r][c]} present {pres[r][c]}: got {got} want {want} tol {tol}")
            if B > 1:
                r = rng.randrange(B)
                alone = pre(x[r: r + 1], m[r: r + 1])
                ctx.saw("row_alone")
                ctx.expect(torch.allclose(alone[0], out[r], atol=1e-6, rtol=1e-6), "row-independence", f"row {r}: {alone[0]} vs {out[r]}")
            if len(order) > 1:
                keep = rng.sample(order, rng.randint(1, len(order) - 1))
                sub = {f: params[f] for f in keep}
                so, _ = sort_features_by_normalization(sub)
                cols = [order.index(f) for f in so]
                sp = Preprocessor(sub, device=torch.device("cpu"))
                sp.train(train)
                so_out = sp(x[:, cols], m[:, cols])
                want = torch.cat([out[:, starts[c]: starts[c] + width(params[order[c]])] for c in cols], dim=1)
                ctx.saw("subset")
                ctx.expect(so_out.shape == want.shape and torch.allclose(so_out, want, atol=1e-6, rtol=1e-6), "feature-independence", f"subset {so}: {so_out} vs {want}")
