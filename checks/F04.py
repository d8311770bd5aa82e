import math

import numpy as np
import vf.quiet  # noqa
import torch
import reagent.types as rlt
from reagent.parameters import NormalizationData
from reagent.preprocessing import transforms as T
from reagent.preprocessing.batch_preprocessor import DiscreteDqnBatchPreprocessor, ParametricDqnBatchPreprocessor, PolicyNetworkBatchPreprocessor
from reagent.preprocessing.normalization import MISSING_VALUE, get_num_output_features, sort_features_by_normalization
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.sparse_preprocessor import make_sparse_preprocessor
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor, StringKeySparseToDenseProcessor
from vf.features import feature_set, make_raw, reference, width

RULE = "a case is one random batch of raw rows (sparse dicts, id lists, dense columns) put through one converter or transform; non-trivial = at least one value was traced from row to tensor"
REQUIRED = {"sparse_cell": 4000, "sparse_absent": 1000, "id_value": 500, "score_value": 300, "transform": 300, "normalized": 300, "batch_field": 500, "empty_row": 50, "sequence": 40, "onehot": 200}


def sparse(ctx, rng):
    n = rng.randint(1, 8) if rng.random() < 0.95 else rng.randint(20, 60)
    feats = rng.sample(range(-20, 500), n) if rng.random() < 0.9 else rng.sample(range(0, 10 ** 9), n)
    zero = rng.random() < 0.4
    strings = rng.random() < 0.4
    B = rng.randint(1, 7) if rng.random() < 0.95 else rng.randint(20, 70)
    rows = []
    for _ in range(B):
        row = {}
        for f in rng.sample(feats + [1000, 1001], rng.randint(0, n + 2)):
            row[f] = rng.choice([float(np.float32(rng.uniform(-1e4, 1e4))), float(rng.randint(-9, 9)), 0.0, rng.randint(-5, 5), float("nan"), rng.choice([3e6, -2.5e9, 1e-9, 1e30, -1337.0, 1337.0])])
        rows.append(row)
    with ctx.case("sparse", dict(feats=feats, rows=rows, zero=zero, strings=strings)):
        cls = StringKeySparseToDenseProcessor if strings else PythonSparseToDenseProcessor
        data = [{str(k): v for k, v in r.items()} for r in rows] if strings else rows
        snap = [dict(r) for r in data]
        proc = cls(feats, set_missing_value_to_zero=zero)
        for _ in range(2):
            vals, pres = proc(data)
            ctx.expect(repr(snap) == repr(data), "input-mutated", "")
            ctx.require(tuple(vals.shape) == (B, n) == tuple(pres.shape) and vals.dtype == torch.float32, "dense-shape", f"{vals.shape} {pres.shape} {vals.dtype}")
            for r in range(B):
                ctx.saw("empty_row", int(not rows[r]))
                for c, f in enumerate(feats):
                    v = rows[r].get(f)
                    here = v is not None and not math.isnan(v)
                    want = v if here else (0.0 if zero else MISSING_VALUE)
                    ctx.saw("sparse_cell")
                    ctx.saw("sparse_absent", int(not here))
                    ctx.expect(float(vals[r, c]) == float(np.float32(want)), "dense-value" if here else "dense-default", f"row {r} feature {f}: got {float(vals[r, c])} want {want}")
                    ctx.expect(bool(pres[r, c]) == (here or zero), "presence", f"row {r} feature {f} value {v}: presence {pres[r, c]}")


def id_features(ctx, rng):
    tables = {t: rng.sample(range(rng.choice([1000, 10 ** 12])), rng.randint(1, 8) if rng.random() < 0.8 else rng.randint(40, 90)) for t in rng.sample(["t0", "t1", "t2"], rng.randint(1, 3))}
    fids = rng.sample(range(100), rng.randint(2, 5))
    lists, scores = [], []
    for i, f in enumerate(fids):
        t = rng.choice(sorted(tables))
        if rng.random() < 0.5:
            lists.append(rlt.IdListFeatureConfig(name=f"n{f}", feature_id=f, id_mapping_name=t))
        else:
            scores.append(rlt.IdScoreListFeatureConfig(name=f"n{f}", feature_id=f, id_mapping_name=t))
    with ctx.case("ids", dict(tables=tables, lists=[(c.feature_id, c.id_mapping_name) for c in lists], scores=[(c.feature_id, c.id_mapping_name) for c in scores])):
        cfg = rlt.ModelFeatureConfig(id_mapping_config={t: rlt.IdMapping(ids=v) for t, v in tables.items()}, id_list_feature_configs=lists, id_score_list_feature_configs=scores)
        B = rng.randint(1, 5)
        raw_l, raw_s, want_l, want_s = {}, {}, {}, {}

        def ragged(t):
            per = [[rng.choice(tables[t]) for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 30]))] for _ in range(B)]
            off = [sum(len(x) for x in per[:r]) for r in range(B)]
            return per, torch.tensor(off, dtype=torch.int32), torch.tensor([x for p in per for x in p], dtype=torch.long)

        for c in lists:
            per, off, v = ragged(c.id_mapping_name)
            raw_l[c.feature_id] = (off, v)
            want_l[c.name] = (off, [tables[c.id_mapping_name].index(x) for p in per for x in p])
        for c in scores:
            per, off, v = ragged(c.id_mapping_name)
            w = torch.tensor([rng.choice([rng.random(), rng.random(), rng.gauss(0, 5), 0.0, -1e6, 3e8, 1e-12]) for _ in range(len(v))])
            raw_s[c.feature_id] = (off, v, w)
            want_s[c.name] = (off, [tables[c.id_mapping_name].index(x) for p in per for x in p], w)
        if rng.random() < 0.5:
            raw_l[777] = (torch.zeros(B, dtype=torch.int32), torch.tensor([], dtype=torch.long))

        def judge(got_l, got_s):
            ctx.require(set(got_l) == set(want_l) and set(got_s) == set(want_s), "id-feature-names", f"{set(got_l)} {set(got_s)} want {set(want_l)} {set(want_s)}")
            for k, (off, ids) in want_l.items():
                ctx.saw("id_value", len(ids))
                ctx.expect(torch.equal(got_l[k][0], off) and got_l[k][1].tolist() == ids and got_l[k][1].dtype == torch.long, "id-list", f"{k}: {got_l[k]} want {off} {ids}")
            for k, (off, ids, w) in want_s.items():
                ctx.saw("score_value", len(ids))
                ctx.expect(torch.equal(got_s[k][0], off) and got_s[k][1].tolist() == ids and torch.equal(got_s[k][2], w), "id-score-list", f"{k}: {got_s[k]} want {off} {ids} {w}")

        sp = make_sparse_preprocessor(cfg, torch.device("cpu"))
        judge(sp.preprocess_id_list(raw_l), sp.preprocess_id_score_list(raw_s))
        tr = T.MapIDListFeatures(["a"], ["b"], cfg, torch.device("cpu"))
        other = torch.randn(2)
        d = tr({"a": dict(raw_l), "b": dict(raw_s), "c": other})
        ctx.expect(set(d) == {"a", "b", "c"} and d["c"] is other, "transform-scope", f"{set(d)}")
        judge(d["a"], d["b"])
        d = tr({"b": dict(raw_s)})
        ctx.expect(d["a"] is None, "absent-id-key", f"{d['a']}")
        dense = T.MapIDListFeatures(["a"], ["b"], rlt.ModelFeatureConfig(), torch.device("cpu"))
        d = dense({"a": dict(raw_l), "b": dict(raw_s)})
        ctx.expect(d["a"] is None and d["b"] is None, "dense-only", f"{d}")
        for c in lists + scores:
            ctx.expect(cfg.id2name[c.feature_id] == c.name and cfg.name2id[c.name] == c.feature_id and cfg.name2config[c.name] == c and cfg.id2config[c.feature_id] == c, "feature-config-lookup", f"{c}")
        for t, v in tables.items():
            ctx.expect(cfg.id_mapping_config[t].table_size == len(v) and cfg.id_mapping_config[t].id2index == {x: i for i, x in enumerate(v)}, "id-mapping", f"{t}")


def transforms(ctx, rng):
    B, D = rng.randint(1, 5), rng.randint(1, 4)
    params = feature_set(rng, n=D)
    order, _ = sort_features_by_normalization(params)

    def vp(rows):
        raw = torch.tensor([[float(np.float32(make_raw(rng, params[f]))) for f in order] for _ in range(rows)])
        pres = (torch.rand(rows, D) < 0.8)
        return raw, pres

    def norm_ref(raw, pres):
        out = []
        for r in range(raw.shape[0]):
            row = []
            for c, f in enumerate(order):
                row += list(zip(*[reference(params[f], float(raw[r, c]), bool(pres[r, c]))[0], ])) and [(x, reference(params[f], float(raw[r, c]), bool(pres[r, c]))[1]) for x in reference(params[f], float(raw[r, c]), bool(pres[r, c]))[0]]
            out.append(row)
        return out

    def norm_eq(got, raw, pres, mech):
        want = norm_ref(raw, pres)
        ok = tuple(got.shape) == (len(want), len(want[0])) and all(abs(float(got[r, c]) - w) <= t for r in range(len(want)) for c, (w, t) in enumerate(want[r]))
        ctx.saw("normalized", len(want) * len(want[0]))
        ctx.expect(ok, mech, f"{got} want {want}")

    keep = torch.randn(3)
    with ctx.case("transforms", dict(B=B, types=[params[f].feature_type for f in order]), distinct=rng.random()):
        # value/presence pairing
        x, m = vp(B)
        y, m2 = vp(B)
        d = T.ValuePresence()({"x": x, "x_presence": m, "y": y, "keep": keep, "z_presence": m2})
        ctx.saw("transform")
        ctx.expect(set(d) == {"x", "y", "keep", "z_presence"} and d["x"][0] is x and d["x"][1] is m and d["y"] is y and d["keep"] is keep, "value-presence", f"{set(d)}")
        nd = NormalizationData(dense_normalization_parameters=params)
        dn = T.DenseNormalization(["x", "y"], nd)
        for _ in range(2):
            x, m = vp(B)
            y, m2 = vp(B)
            d = dn({"x": (x, m), "y": (y, m2), "keep": keep})
            ctx.saw("transform")
            norm_eq(d["x"], x, m, "dense-normalization")
            norm_eq(d["y"], y, m2, "dense-normalization")
            ctx.expect(d["keep"] is keep and set(d) == {"x", "y", "keep"}, "transform-scope", "")
        # masking
        d = T.MaskByPresence(["x"])({"x": (x, m), "keep": keep})
        ctx.saw("transform")
        ctx.expect(torch.equal(d["x"], torch.where(m, x, torch.zeros_like(x))) and d["keep"] is keep, "mask-by-presence", f"{d['x']}")
        try:
            T.MaskByPresence(["x"])({"x": (x, torch.cat([m, m], dim=1))})
            ctx.expect(False, "mask-shape-accepted", "")
        except AssertionError:
            pass
        # one-hot with the 'no action' value
        n = rng.randint(1, 6) if rng.random() < 0.8 else rng.randint(7, 40)
        a = torch.tensor([rng.randint(0, n) for _ in range(B)])
        d = T.OneHotActions(["a"], n)({"a": a, "keep": keep})
        want = [[1 if (j == v and v < n) else 0 for j in range(n)] for v in a.tolist()]
        steps = torch.tensor([[rng.randint(0, n) for _ in range(3)] for _ in range(B)])
        d2 = T.OneHotActions(["s", "a"], n)({"s": steps, "a": a})
        ctx.expect(d2["s"].tolist() == [[[int(j == v) for j in range(n)] for v in row] for row in steps.tolist()] and d2["a"].tolist() == want, "one-hot", f"{steps} of {n}: {d2['s']}")
        ctx.saw("transform")
        ctx.saw("onehot", B)
        ctx.expect(d["a"].tolist() == want, "one-hot", f"{a} of {n}: {d['a']}")
        # columns
        v1, v2 = torch.randn(B), torch.randn(B, 1)
        lst = [f"id{i}" for i in range(B)]
        d = T.ColumnVector(["a", "b", "c", "d"])({"a": v1, "b": v2, "c": lst, "d": (v1, v2), "keep": keep})
        ctx.saw("transform")
        ctx.expect(torch.equal(d["a"], v1.reshape(B, 1)) and torch.equal(d["b"], v2) and d["c"].tolist() == [[x] for x in lst] and torch.equal(d["d"], v1.reshape(B, 1)), "column-vector", f"{d}")
        try:
            T.ColumnVector(["a"])({"a": torch.randn(B, 2)})
            ctx.expect(False, "column-shape-accepted", "")
        except AssertionError:
            pass
        # lambda and composition order
        comp = T.Compose(T.Lambda(["k"], lambda t: t + 3), T.Lambda(["k"], lambda t: t * 2), T.Lambda(["q"], lambda t: t - 1))
        d = comp({"k": v1, "q": v2, "keep": keep})
        ctx.saw("transform")
        ctx.expect(torch.equal(d["k"], (v1 + 3) * 2) and torch.equal(d["q"], v2 - 1) and d["keep"] is keep, "compose-order", f"{d['k']}")
        # fixed-size arrays
        S = rng.randint(1, 4)
        rows = [rng.choice([1, 1, 2, 3]) for _ in range(B)]
        parts = [(torch.randn(r, S), torch.ones(r, S)) for r in rows]
        d = T.StackDenseFixedSizeArray(["a", "b"], size=S)({"a": parts, "b": torch.cat([p[0] for p in parts]).double(), "keep": keep})
        ctx.saw("transform")
        ctx.expect(torch.equal(d["a"], torch.cat([p[0] for p in parts])) and d["b"].dtype == torch.float and torch.equal(d["a"], d["b"]), "stack-fixed", f"{d['a']}")
        try:
            T.StackDenseFixedSizeArray(["a"], size=S)({"a": torch.randn(B, S + 1)})
            ctx.expect(False, "array-size-accepted", "")
        except ValueError:
            pass
        # sequences
        L = rng.randint(1, 4)
        sid = rng.randint(0, 9)
        vals, pr = vp(B * L)
        off = torch.arange(0, B * L, L)
        fl = T.FixedLengthSequences(["s"], sid, to_keys=["t"], expected_length=rng.choice([None, L]))
        d = fl({"s": {sid: (off, (vals, pr)), 99: None}, "keep": keep})
        ctx.saw("sequence")
        ctx.expect(d["t"][0] is vals and d["t"][1] is pr and d["keep"] is keep and "s" in d, "fixed-sequences", "")
        if B > 1:
            try:
                bad = off.clone()
                bad[-1] += 1
                T.FixedLengthSequences(["s"], sid, expected_length=L)({"s": {sid: (bad, (vals, pr))}})
                ctx.expect(False, "ragged-sequence-accepted", f"{bad}")
            except AssertionError:
                pass
        sn = T.FixedLengthSequenceDenseNormalization(["s"], sid, nd)
        for _ in range(2):
            vals, pr = vp(B * L)
            d = sn({"s": {sid: (off, (vals, pr))}})
            got = d[f"s:{sid}"]
            ctx.expect(tuple(got.shape) == (B, L, get_num_output_features(params)), "sequence-shape", f"{got.shape}")
            norm_eq(got.reshape(B * L, -1), vals, pr, "sequence-normalization")
        d = T.SlateView(["v"], L)({"v": vals, "keep": keep})
        ctx.expect(tuple(d["v"].shape) == (B, L, D) and all(torch.equal(d["v"][b, i], vals[b * L + i]) for b in range(B) for i in range(L)), "slate-view", f"{d['v'].shape}")


def batches(ctx, rng):
    sp = feature_set(rng, n=rng.randint(1, 4), types=["CONTINUOUS", "BINARY", "ENUM", "PROBABILITY"])
    ap = feature_set(rng, n=rng.randint(1, 3), types=["CONTINUOUS", "CONTINUOUS_ACTION"])
    so, _ = sort_features_by_normalization(sp)
    ao, _ = sort_features_by_normalization(ap)
    B = rng.randint(1, 5)
    A = rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(5, 30)

    def vp(params, order):
        return torch.tensor([[float(np.float32(make_raw(rng, params[f]))) for f in order] for _ in range(B)]), (torch.rand(B, len(order)) < 0.85).to(torch.uint8)

    spre, apre = Preprocessor(sp, device=torch.device("cpu")), Preprocessor(ap, device=torch.device("cpu"))
    b = {}
    b["state_features"], b["state_features_presence"] = vp(sp, so)
    b["next_state_features"], b["next_state_features_presence"] = vp(sp, so)
    for k in ("reward", "time_diff", "step", "mdp_id", "sequence_number", "action_probability"):
        b[k] = torch.tensor([rng.choice([1, 1, 1, -1, 0, 0.25]) * float(rng.randint(1, 10 ** 6)) for _ in range(B)])
    kind = rng.choice(["discrete", "parametric", "policy"])
    with ctx.case("batch:" + kind, dict(B=B, A=A), distinct=rng.random()):
        if kind == "discrete":
            b["action"] = torch.tensor([rng.randrange(A) for _ in range(B)])
            b["next_action"] = torch.tensor([rng.randrange(A + 1) for _ in range(B)])
            b["possible_actions_mask"] = torch.tensor([[rng.randint(0, 1) for _ in range(A)] for _ in range(B)])
            b["possible_next_actions_mask"] = torch.tensor([[[rng.randint(0, 1) for _ in range(A)], [0] * A, [0] * A, [0] * (A - 1) + [1], [1] + [0] * (A - 1)][rng.choice([0, 0, 0, 0, 1, 2, 3, 4])] for _ in range(B)])
            out = DiscreteDqnBatchPreprocessor(A, spre, use_gpu=False)(dict(b))
            ctx.expect(out.action.tolist() == [[int(j == v) for j in range(A)] for v in b["action"].tolist()], "batch-action", f"{out.action}")
            ctx.expect(out.next_action.tolist() == [[int(j == v) for j in range(A)] for v in b["next_action"].tolist()], "batch-next-action", f"{out.next_action}")
            ctx.expect(out.not_terminal.tolist() == [[1.0 if sum(r) else 0.0] for r in b["possible_next_actions_mask"].tolist()], "batch-not-terminal", f"{out.not_terminal}")
            ctx.expect(torch.equal(out.possible_actions_mask, b["possible_actions_mask"]) and torch.equal(out.possible_next_actions_mask, b["possible_next_actions_mask"]), "batch-masks", "")
        else:
            b["action"], b["action_presence"] = vp(ap, ao)
            b["next_action"], b["next_action_presence"] = vp(ap, ao)
            b["not_terminal"] = torch.tensor([float(rng.randint(0, 1)) for _ in range(B)])
            if kind == "parametric":
                for k in ("possible_actions", "possible_actions_mask", "possible_next_actions", "possible_next_actions_mask"):
                    b[k] = torch.randn(B, A)
                out = ParametricDqnBatchPreprocessor(spre, apre, use_gpu=False)(dict(b))
                ctx.expect(torch.equal(out.possible_actions_mask, b["possible_actions_mask"]) and torch.equal(out.possible_next_actions_mask, b["possible_next_actions_mask"])
                           and out.possible_actions is not None and torch.equal(getattr(out.possible_actions, "float_features", out.possible_actions), b["possible_actions"]), "batch-masks", "")
                pn = out.possible_next_actions
                ctx.expect(torch.equal(getattr(pn, "float_features", pn), b["possible_next_actions"]), "batch-candidates", "")
            else:
                out = PolicyNetworkBatchPreprocessor(spre, apre, use_gpu=False)(dict(b))
            ctx.expect(torch.allclose(out.action.float_features, apre(b["action"], b["action_presence"])), "batch-action", "")
            ctx.expect(torch.allclose(out.next_action.float_features, apre(b["next_action"], b["next_action_presence"])), "batch-next-action", "")
            ctx.expect(out.not_terminal.tolist() == [[v] for v in b["not_terminal"].tolist()], "batch-not-terminal", "")
        ctx.expect(torch.allclose(out.state.float_features, spre(b["state_features"], b["state_features_presence"])), "batch-state", "")
        ctx.expect(torch.allclose(out.next_state.float_features, spre(b["next_state_features"], b["next_state_features_presence"])), "batch-next-state", "")
        for k in ("reward", "time_diff", "step"):
            ctx.saw("batch_field", B)
            ctx.expect(getattr(out, k).tolist() == [[v] for v in b[k].tolist()], "batch-" + k, f"{getattr(out, k)}")
        for k in ("mdp_id", "sequence_number", "action_probability"):
            ctx.saw("batch_field", B)
            ctx.expect(getattr(out.extras, k).tolist() == [[v] for v in b[k].tolist()], "batch-" + k, f"{getattr(out.extras, k)}")


def run(ctx):
    ctx.seed_all("f04")
    for name, fn, q, t in (("sparse", sparse, 250, 3000), ("ids", id_features, 60, 600), ("transforms", transforms, 80, 1000), ("batches", batches, 90, 1000)):
        rng = ctx.sub(name)
        with ctx.part(name):
            for _ in range(ctx.n(q, t)):
                fn(ctx, rng)
