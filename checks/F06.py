"""F06: batch containers carry every field unchanged and together, and derive the rest from them."""
import vf.quiet  # noqa
import copy
import dataclasses
import io
import math
import pickle

import numpy as np
import torch
import reagent.training  # noqa  (import order)
import reagent.types as rlt
from reagent import torch_utils as tu
from reagent.model_utils.seq2slate_utils import DECODER_START_SYMBOL, PADDING_SYMBOL, subsequent_and_padding_mask, subsequent_mask

RULE = (
    "Random batches of every container type (dense, id lists, documents, sequences, nested) are put through every kind of tensor operation, "
    "copying, pickling and field replacement: each tensor of the result must be the operation applied to the tensor at the same place, other "
    "fields and the original must be untouched. Batches built from dictionaries with a distinct value in each column must hold each column in "
    "the field of its name. The indices, sequences and masks a ranking batch derives, the documents a slate selects, tiled batches and "
    "user-document products are recomputed item by item; the tensor helpers behind them (masked softmax, gather, stack, rescale, masks) are "
    "compared with scalar definitions on random inputs."
)
REQUIRED = {"operations": 300, "leaves": 2500, "replaced": 60, "copies": 100, "refused": 60, "from_dict": 80, "columns": 700, "ranking": 40, "ranking_positions": 400, "slates": 40, "tiles": 30,
            "user_docs": 30, "configs": 30, "softmax_rows": 150, "all_masked_rows": 10, "gathered": 200, "helpers": 60}


# ------------------------------------------------------------------ leaves
def leaves(v, path=""):
    """every tensor or plain value reachable from a container, with its place"""
    if isinstance(v, torch.Tensor):
        yield path, v
    elif dataclasses.is_dataclass(v):
        for f in dataclasses.fields(v):
            yield from leaves(getattr(v, f.name), f"{path}.{f.name}")
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, f"{path}[{k!r}]")
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from leaves(x, f"{path}({i})")
    else:
        yield path, v


def same(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(torch.nan_to_num(a.double(), 7.25), torch.nan_to_num(b.double(), 7.25))
    return type(a) is type(b) and a == b


class Maker:
    def __init__(self, ctx, label):
        self.rng = ctx.sub(label)
        ctx.seed_all(label)
        self.n = self.rng.randint(1, 5)
        self.d = self.rng.randint(1, 4)
        self.c = self.rng.randint(2, 5)

    def t(self, *shape):
        k = self.rng.random()
        x = torch.randn(*shape)
        return (x * 5).round().long() if k < 0.15 else x > 0 if k < 0.25 else x.double() if k < 0.35 else x.half() if k < 0.4 else x

    def maybe(self, *shape):
        return self.t(*shape) if self.rng.random() < 0.6 else None

    def idlist(self):
        out = {}
        for name in self.rng.sample(["a", "b", "page", "x1"], self.rng.randint(0, 3)):
            k = self.rng.randint(0, 4)
            out[name] = (torch.zeros(self.n, dtype=torch.long), torch.randint(0, 9, (k,)))
        return out

    def idscore(self):
        return {k: v + (torch.rand(len(v[1])),) for k, v in self.idlist().items()}

    def docs(self):
        full = self.rng.random() < 0.7
        f = torch.randn(self.n, self.c, 2)
        return rlt.DocList(f, torch.rand(self.n, self.c) > 0.3, torch.rand(self.n, self.c)) if full else rlt.DocList(f)

    def feature(self):
        p = self.rng.random
        return rlt.FeatureData(
            float_features=torch.randn(self.n, self.d), id_list_features=self.idlist() if p() < 0.5 else {}, id_score_list_features=self.idscore() if p() < 0.5 else {},
            stacked_float_features=self.t(2, self.n, self.d) if p() < 0.4 else None, candidate_docs=self.docs() if p() < 0.4 else None, time_since_first=self.t(self.n, 1) if p() < 0.4 else None)

    def extras(self):
        return rlt.ExtraData(mdp_id=self.maybe(self.n, 1), sequence_number=self.maybe(self.n, 1), action_probability=self.maybe(self.n, 1), max_num_actions=self.rng.choice([None, 3, 7]), metrics=self.maybe(self.n, 2))

    def base(self):
        return dict(state=self.feature(), next_state=self.feature(), reward=self.t(self.n, 1), time_diff=self.t(self.n, 1), step=self.maybe(self.n, 1), not_terminal=self.t(self.n, 1))

    def container(self):
        k = self.rng.randrange(11)
        n, c = self.n, self.c
        if k == 0:
            return self.feature()
        if k == 1:
            return self.docs()
        if k == 2:
            return self.extras()
        if k == 3:
            return rlt.DiscreteDqnInput(**self.base(), action=self.t(n, c), next_action=self.t(n, c), possible_actions_mask=self.t(n, c), possible_next_actions_mask=self.t(n, c), extras=self.extras())
        if k == 4:
            f = self.feature
            return rlt.ParametricDqnInput(**self.base(), action=f(), next_action=f(), possible_actions=f(), possible_actions_mask=self.t(n, c), possible_next_actions=f(), possible_next_actions_mask=self.t(n, c), extras=self.extras())
        if k == 5:
            return rlt.PolicyNetworkInput(**self.base(), action=self.feature(), next_action=self.feature(), extras=self.extras())
        if k == 6:
            return rlt.SlateQInput(**self.base(), action=self.t(n, c), next_action=self.t(n, c), reward_mask=self.t(n, c), extras=self.extras())
        if k == 7:
            return rlt.MemoryNetworkInput(**self.base(), action=self.t(n, c), valid_seq_len=self.maybe(n), valid_next_seq_len=self.maybe(n), extras=self.extras())
        if k == 8:
            return rlt.PreprocessedTrainingBatch(training_input=self.ranking()[0], extras=self.extras())
        if k == 9:
            return rlt.ActorOutput(action=self.t(n, c), log_prob=self.maybe(n, 1), squashed_mean=self.maybe(n, c))
        return rlt.PolicyGradientInput(state=self.feature(), action=self.t(n, c), reward=self.t(n), log_prob=self.t(n), possible_actions_mask=self.maybe(n, c))

    def ranking(self):
        n, c, rng = self.n, self.c, self.rng
        dim, k = rng.randint(1, 3), rng.randint(1, c)
        perm = lambda: torch.stack([torch.randperm(c)[:k] for _ in range(n)])  # noqa
        kw = dict(state=torch.randn(n, self.d), candidates=torch.randn(n, c, dim), device=torch.device("cpu"))
        if rng.random() < 0.8:
            kw["action"] = perm()
            if rng.random() < 0.6:
                kw["logged_propensities"] = torch.rand(n, 1)
            if rng.random() < 0.6:
                kw["position_reward"] = torch.randn(n, k)
        if rng.random() < 0.5:
            kw["optimal_action"] = perm()
        if rng.random() < 0.6:
            kw["slate_reward"] = torch.randn(n, 1)
        if rng.random() < 0.3:
            kw["extras"] = self.extras()
        return rlt.PreprocessedRankingInput.from_input(**kw), kw


OPS = [("clone", ()), ("detach", ()), ("cpu", ()), ("contiguous", ()), ("to", (torch.float64,)), ("double", ()), ("float", ()), ("abs", ()), ("to", ("cpu",)), ("long", ()), ("neg", ())]


def operations(ctx, k):
    mk = Maker(ctx, f"o{k}")
    rng = mk.rng
    b = mk.container()
    before = [(p, v.clone() if isinstance(v, torch.Tensor) else copy.copy(v)) for p, v in leaves(b)]
    tensors = [(p, v) for p, v in leaves(b) if isinstance(v, torch.Tensor)]
    with ctx.case("operations", dict(kind=type(b).__name__, tensors=len(tensors)), distinct=k):
        for name, args in rng.sample(OPS, 4):
            if name in ("neg", "abs") and any(v.dtype is torch.bool for _, v in tensors):
                continue  # not defined for truth values
            got = getattr(b, name)(*args)
            ctx.saw("operations")
            ctx.expect(type(got) is type(b) and got is not b, "operation-type", f"{type(b).__name__}.{name}: {type(got).__name__}")
            a, g = list(leaves(b)), list(leaves(got))
            ctx.require([p for p, _ in a] == [p for p, _ in g], "operation-fields", f"{type(b).__name__}.{name}: {[p for p, _ in g]} of {[p for p, _ in a]}")
            for (p, x), (_, y) in zip(a, g):
                ctx.saw("leaves")
                want = getattr(x, name)(*args) if isinstance(x, torch.Tensor) else x
                ctx.expect(same(y, want), "operation-value", f"{type(b).__name__}.{name} at {p}")
            if name == "clone":
                for (p, x), (_, y) in zip(a, g):
                    if isinstance(x, torch.Tensor) and x.numel():
                        ctx.expect(x.data_ptr() != y.data_ptr(), "clone-shares-memory", p)
        for how, make in (("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
            got = make(b)
            ctx.saw("copies")
            a, g = list(leaves(b)), list(leaves(got))
            ctx.expect(type(got) is type(b) and [p for p, _ in a] == [p for p, _ in g] and all(same(x, y) for (_, x), (_, y) in zip(a, g)), "copy-differs", f"{how} of {type(b).__name__}")
        f = rng.choice(dataclasses.fields(b)).name
        if not (isinstance(b, (rlt.DocList, rlt.FeatureData)) and f == "float_features"):
            mark = torch.full((2, 3), 9.5)
            got = b._replace(**{f: mark})
            ctx.saw("replaced")
            ctx.expect(type(got) is type(b) and getattr(got, f) is mark, "replaced-field", f)
            for other in dataclasses.fields(b):
                if other.name != f:
                    x, y = getattr(b, other.name), getattr(got, other.name)
                    ctx.expect(x is y or [p for p, _ in leaves(x)] == [p for p, _ in leaves(y)] and all(same(u, v) for (_, u), (_, v) in zip(leaves(x), leaves(y))), "replace-changes-another-field", f"{f}: {other.name}")
        after = list(leaves(b))
        ctx.expect([p for p, _ in before] == [p for p, _ in after] and all(same(x, y) for (_, x), (_, y) in zip(before, after)), "operation-changes-original", type(b).__name__)
        for attr in ("no_such_method", "stat", "flaot"):
            ctx.saw("refused")
            try:
                getattr(b, attr)
                ctx.expect(False, "unknown-attribute", attr)
            except AttributeError:
                pass
        if not hasattr(type(b), "__len__"):
            ctx.expect(not hasattr(b, "__len__"), "container-pretends-length", "")


# ------------------------------------------------------------------ dictionaries
def from_dicts(ctx, k):
    mk = Maker(ctx, f"d{k}")
    rng, n, d, c = mk.rng, mk.n, mk.d, mk.c
    kind = ["dqn", "parametric", "policy", "slate", "extra"][k % 5]
    val = {}

    def col(name, *shape):
        val[name] = torch.randn(*shape)
        return val[name]

    def judge(label, got, want):
        ctx.saw("columns")
        ctx.expect(got is want or (same(got, want) if isinstance(want, torch.Tensor) else got == want), "column", f"{kind} {label}")

    with ctx.case("from_dict", dict(kind=kind), distinct=k):
        ctx.saw("from_dict")
        for name in ("state_features", "next_state_features"):
            col(name, n, d)
        for name in ("reward", "time_diff", "not_terminal", "step"):
            col(name, n, 1)
        extras = mk.extras()
        if kind == "extra":
            names = rng.sample(["mdp_id", "sequence_number", "action_probability", "metrics"], rng.randint(0, 4))
            for name in names:
                col(name, n, 2)
            if rng.random() < 0.5:
                val["max_num_actions"] = 4
            got = rlt.ExtraData.from_dict(val)
            for name in ("mdp_id", "sequence_number", "action_probability", "metrics", "max_num_actions"):
                judge(name, getattr(got, name), val.get(name))
            return
        if kind == "slate":
            S = rng.randint(1, c)
            for pre in ("", "next_"):
                col(f"{pre}candidate_features", n, c, 3), col(f"{pre}item_mask", n, c), col(f"{pre}item_probability", n, c)
                val[f"{pre}action"] = torch.randint(0, c, (n, S))
            col("position_reward", n, S), col("reward_mask", n, S), col("mdp_id", n, 1), col("sequence_number", n, 1), col("action_probability", n, 1)
            got = rlt.SlateQInput.from_dict(val)
            for pre, st in (("", got.state), ("next_", got.next_state)):
                judge(f"{pre}state", st.float_features, val[f"{pre}state_features"])
                judge(f"{pre}docs", st.candidate_docs.float_features, val[f"{pre}candidate_features"])
                judge(f"{pre}mask", st.candidate_docs.mask, val[f"{pre}item_mask"])
                judge(f"{pre}value", st.candidate_docs.value, val[f"{pre}item_probability"])
            for name, key in (("action", "action"), ("next_action", "next_action"), ("reward", "position_reward"), ("reward_mask", "reward_mask"), ("time_diff", "time_diff"), ("not_terminal", "not_terminal")):
                judge(name, getattr(got, name), val[key])
            for name in ("mdp_id", "sequence_number", "action_probability"):
                judge(name, getattr(got.extras, name), val[name])
            return
        for name in ("action", "next_action", "possible_actions", "possible_next_actions", "possible_actions_mask", "possible_next_actions_mask"):
            col(name, n, c)
        val["extras"] = extras
        sparse = kind != "parametric" and rng.random() < 0.6
        if sparse:
            for pre in ("state", "next_state"):
                val[f"{pre}_id_list_features"], val[f"{pre}_id_score_list_features"] = mk.idlist(), mk.idscore()
        docs = kind != "parametric" and rng.random() < 0.4
        if docs:
            for pre in ("", "next_"):
                col(f"{pre}candidate_features", n, c, 3)
        if kind != "parametric" and rng.random() < 0.5:
            val.pop("step")
        T = dict(dqn=rlt.DiscreteDqnInput, parametric=rlt.ParametricDqnInput, policy=rlt.PolicyNetworkInput)[kind]
        got = T.from_dict(val)
        ctx.expect(type(got) is T and len(got) == n and got.batch_size() == n, "batch-type", f"{type(got).__name__} of {len(got)}")
        for pre, st in (("", got.state), ("next_", got.next_state)):
            judge(f"{pre}state", st.float_features, val[f"{pre}state_features"])
            judge(f"{pre}id lists", st.id_list_features, val.get(f"{pre}state_id_list_features", {}))
            judge(f"{pre}id scores", st.id_score_list_features, val.get(f"{pre}state_id_score_list_features", {}))
            if docs:
                judge(f"{pre}docs", st.candidate_docs.float_features, val[f"{pre}candidate_features"])
            else:
                judge(f"{pre}docs", st.candidate_docs, None)
        for name in ("reward", "time_diff", "not_terminal", "step"):
            judge(name, getattr(got, name), val.get(name))
        judge("extras", got.extras, extras)
        for name in ("action", "next_action"):
            x = getattr(got, name)
            judge(name, x if kind == "dqn" else x.float_features, val[name])
        if kind != "policy":
            for name in ("possible_actions_mask", "possible_next_actions_mask"):
                judge(name, getattr(got, name), val[name])
        if kind == "parametric":
            for name in ("possible_actions", "possible_next_actions"):
                judge(name, getattr(got, name).float_features, val[name])
        shallow = got.as_dict_shallow()
        ctx.expect(set(shallow) == {"state", "next_state", "reward", "time_diff", "step", "not_terminal"} and all(v is getattr(got, x) for x, v in shallow.items()), "shallow-dictionary", f"{list(shallow)}")


# ------------------------------------------------------------------ ranking batches
def ranking(ctx, k):
    mk = Maker(ctx, f"r{k}")
    got, kw = mk.ranking()
    n, c = mk.n, mk.c
    cand = kw["candidates"]
    with ctx.case("ranking", {x: tuple(v.shape) for x, v in kw.items() if isinstance(v, torch.Tensor)}, distinct=k):
        ctx.saw("ranking")
        ctx.expect(same(got.state.float_features, kw["state"]) and same(got.src_seq.float_features, cand), "ranking-inputs", "")
        ctx.expect(got.src_in_idx.tolist() == [[j + 2 for j in range(c)]] * n, "source-indices", f"{got.src_in_idx.tolist()}")
        ctx.expect(tuple(got.src_src_mask.shape) == (n, c, c) and bool((got.src_src_mask == 1).all()), "source-mask", f"{got.src_src_mask.shape}")
        for name in ("slate_reward", "position_reward", "extras"):
            x, y = getattr(got, name), kw.get(name)
            ctx.expect(x is y or same(x, y), name, "")
        ctx.expect(got.tgt_out_probs is kw.get("logged_propensities") or same(got.tgt_out_probs, kw["logged_propensities"]), "propensities", "")
        for pre, act in (("", kw.get("action")), ("optim_", kw.get("optimal_action"))):
            oi, ii, os_, is_ = (getattr(got, f"{pre}tgt_{x}") for x in ("out_idx", "in_idx", "out_seq", "in_seq"))
            if act is None:
                ctx.expect(oi is None and ii is None and os_ is None and is_ is None, "targets-from-nothing", pre)
                continue
            K = act.shape[1]
            ctx.require(tuple(oi.shape) == tuple(ii.shape) == (n, K) and tuple(os_.float_features.shape) == tuple(is_.float_features.shape) == (n, K, cand.shape[2]), "target-shapes", "")
            for i in range(n):
                for j in range(K):
                    ctx.saw("ranking_positions")
                    a = int(act[i, j])
                    ctx.expect(int(oi[i, j]) == a + 2, "target-index", f"{pre}[{i},{j}] {int(oi[i, j])} for {a}")
                    ctx.expect(int(ii[i, j]) == (DECODER_START_SYMBOL if j == 0 else int(act[i, j - 1]) + 2), "decoder-input-index", f"{pre}[{i},{j}] {int(ii[i, j])}")
                    ctx.expect(torch.equal(os_.float_features[i, j], cand[i, a]), "target-sequence", f"{pre}[{i},{j}]")
                    ctx.expect(torch.equal(is_.float_features[i, j], torch.zeros(cand.shape[2]) if j == 0 else cand[i, int(act[i, j - 1])]), "decoder-input-sequence", f"{pre}[{i},{j}]")
        if kw.get("action") is not None:
            m, K = got.tgt_tgt_mask, kw["action"].shape[1]
            ctx.expect([[bool(m[0, a, b]) for b in range(K)] for a in range(K)] == [[b <= a for b in range(K)] for a in range(K)], "target-mask", "")
        ctx.expect(rlt.PreprocessedTrainingBatch(training_input=got).batch_size() == n, "batch-size", "")
        bad = mk.rng.choice([dict(state=torch.randn(n, 2, 2)), dict(candidates=torch.randn(n, c)), dict(slate_reward=torch.randn(n)), dict(logged_propensities=torch.rand(n, 2)), dict(action=torch.zeros(n, dtype=torch.long)), dict(action=torch.zeros(n, 2, dtype=torch.long), position_reward=torch.randn(n, 3))])
        ctx.saw("refused")
        try:
            rlt.PreprocessedRankingInput.from_input(**{**kw, **bad})
            ctx.expect(False, "malformed-ranking-accepted", f"{list(bad)}")
        except AssertionError:
            pass
        try:
            rlt.PreprocessedRankingInput(state=kw["state"], src_seq=got.src_seq)
            ctx.expect(False, "bare-tensor-accepted", "")
        except ValueError:
            pass


# ------------------------------------------------------------------ documents
def slates(ctx, k):
    mk = Maker(ctx, f"s{k}")
    rng, n, c, d = mk.rng, mk.n, mk.c, mk.d
    f = torch.randn(n, c, 3)
    with ctx.case("slates", dict(n=n, c=c), distinct=k):
        plain = rlt.DocList(f)
        ctx.expect(plain.mask.dtype is torch.bool and tuple(plain.mask.shape) == (n, c) and bool(plain.mask.all()) and tuple(plain.value.shape) == (n, c) and bool((plain.value == 1).all()), "default-documents", "")
        mask, value = torch.rand(n, c) > 0.4, torch.randn(n, c)
        mask[torch.arange(n), torch.randint(0, c, (n,))] = True
        docs = rlt.DocList(f, mask, value)
        K = rng.randint(1, c)
        act = torch.tensor([[rng.choice(mask[i].nonzero().flatten().tolist()) for _ in range(K)] for i in range(n)])
        got = docs.select_slate(act)
        ctx.saw("slates")
        for i in range(n):
            for j in range(K):
                a = int(act[i, j])
                ctx.expect(torch.equal(got.float_features[i, j], f[i, a]) and got.value[i, j] == value[i, a] and bool(got.mask[i, j]), "slate-document", f"[{i},{j}] {a}")
        if not mask.all():
            i, j = mask.logical_not().nonzero()[0].tolist()
            bad = act.clone()
            bad[i, 0] = j
            ctx.saw("refused")
            try:
                docs.select_slate(bad)
                ctx.expect(False, "absent-document-selected", f"[{i}] {j}")
            except AssertionError:
                pass
        flat = docs.as_feature_data().float_features
        ctx.expect(tuple(flat.shape) == (n * c, 3) and all(torch.equal(flat[i * c + j], f[i, j]) for i in range(n) for j in range(c)), "flattened-documents", "")
        x = torch.randn(n, d)
        user = rlt.FeatureData(x, candidate_docs=docs)
        both = user.concat_user_doc()
        ctx.saw("user_docs")
        ctx.expect(tuple(both.shape) == (n, c, d + 3) and all(torch.equal(both[i, j], torch.cat([x[i], f[i, j]])) for i in range(n) for j in range(c)), "user-document", "")
        t = rng.randint(1, 4)
        tiled = rlt.FeatureData(x).get_tiled_batch(t).float_features
        ctx.saw("tiles")
        ctx.expect(tuple(tiled.shape) == (n * t, d) and all(torch.equal(tiled[i * t + j], x[i]) for i in range(n) for j in range(t)), "tiles", "")
        seq = rlt.MemoryNetworkInput(state=rlt.FeatureData(torch.randn(4, n, d)), next_state=rlt.FeatureData(x), reward=x, time_diff=x, step=None, not_terminal=x, action=x)
        ctx.expect(len(seq) == n and len(seq._replace(state=rlt.FeatureData(torch.randn(c + 3, d)))) == c + 3, "sequence-length", f"{len(seq)} want {n}")
        for label, fd, want in (("plain", rlt.FeatureData(x), True), ("docs", user, False), ("ids", rlt.FeatureData(x, id_list_features={"a": (torch.zeros(n), torch.zeros(0))}), False), ("time", rlt.FeatureData(x, time_since_first=torch.zeros(n, 1)), False)):
            ctx.expect(fd.has_float_features_only is want, "float-features-only", label)
        for what, make in (("tiled documents", lambda: user.get_tiled_batch(2)), ("no documents", lambda: rlt.FeatureData(x).concat_user_doc()), ("flat documents", lambda: rlt.DocList(x)), ("1-D features", lambda: rlt.FeatureData(x[0])), ("4-D features", lambda: rlt.FeatureData(torch.zeros(1, 1, 1, 1)))):
            ctx.saw("refused")
            try:
                make()
                ctx.expect(False, "malformed-features-accepted", what)
            except (AssertionError, ValueError):
                pass


def configs(ctx, k):
    rng = ctx.sub(f"c{k}")
    with ctx.case("config", dict(k=k), distinct=k):
        ids = rng.sample(range(-50, 500), rng.randint(0, 12))
        m = rlt.IdMapping(ids=ids)
        ctx.expect(m.table_size == len(ids) and m.id2index == {x: i for i, x in enumerate(ids)}, "id-mapping", f"{ids}: {m.id2index}")
        nums, names = rng.sample(range(100), 6), rng.sample(["a", "b", "c", "d", "e", "f", "g"], 6)
        cut = rng.randint(0, 6)
        a = [rlt.IdListFeatureConfig(name=x, feature_id=i, id_mapping_name="t") for i, x in list(zip(nums, names))[:cut]]
        b = [rlt.IdScoreListFeatureConfig(name=x, feature_id=i, id_mapping_name="t") for i, x in list(zip(nums, names))[cut:]]
        cfg = rlt.ModelFeatureConfig(id_mapping_config={"t": m}, id_list_feature_configs=a, id_score_list_feature_configs=b)
        ctx.saw("configs")
        ctx.expect(cfg.id2name == dict(zip(nums, names)) and cfg.name2id == dict(zip(names, nums)), "names-and-ids", f"{cfg.id2name}")
        ctx.expect(all(cfg.id2config[i].name == x and cfg.name2config[x].feature_id == i for i, x in zip(nums, names)) and len(cfg.id2config) == len(cfg.name2config) == 6, "feature-lookup", "")
        ctx.expect(cfg.only_dense is False and rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name="x", feature_id=1)]).only_dense is True, "only-dense", "")
        i, j = rng.sample(range(6), 2)
        both = a + b
        for dup in (dict(name=both[j].name), dict(feature_id=both[j].feature_id)):
            other = dataclasses.replace(both[i], **dup)
            ctx.saw("refused")
            try:
                rlt.ModelFeatureConfig(id_list_feature_configs=[other if x is both[i] else x for x in a], id_score_list_feature_configs=[other if x is both[i] else x for x in b])
                ctx.expect(False, "duplicate-feature-accepted", f"{dup}")
            except AssertionError:
                pass


# ------------------------------------------------------------------ tensor helpers
def helpers(ctx, k):
    rng = ctx.sub(f"h{k}")
    ctx.seed_all(f"h{k}")
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    with ctx.case("helpers", dict(n=n, m=m), distinct=k):
        ctx.saw("helpers")
        x = torch.randn(n, m) * rng.choice([1, 10, 200])
        temp = rng.choice([1.0, 0.35, 3.0, 0.01])
        mask = (torch.rand(n, m) < 0.6).float()
        if rng.random() < 0.4:
            mask[rng.randrange(n)] = 0
        keep = x.clone(), mask.clone()
        got, soft = tu.masked_softmax(x, mask, temp), tu.softmax(x, temp)
        ctx.expect(torch.equal(x, keep[0]) and torch.equal(mask, keep[1]), "softmax-changes-input", "")
        for i in range(n):
            z = [float(v) / temp for v in x[i]]
            for label, g, ok in (("masked", got[i], [bool(v) for v in mask[i]]), ("plain", soft[i], [True] * m)):
                ctx.saw("softmax_rows")
                top = max([v for v, o in zip(z, ok) if o], default=0.0)
                e = [math.exp(v - top) if o else 0.0 for v, o in zip(z, ok)]
                want = [v / sum(e) if any(ok) else 0.0 for v in e]
                ctx.saw("all_masked_rows", not any(ok))
                ctx.expect(all(abs(float(a) - b) < 1e-3 for a, b in zip(g, want)), f"{label}-softmax", f"{x[i].tolist()} mask {ok} / {temp}: {g.tolist()} want {want}")
        d = rng.randint(1, 3)
        data, idx = torch.randn(n, m, d), torch.randint(0, m, (n, rng.randint(1, 7)))
        g = tu.gather(data, idx)
        ctx.expect(tuple(g.shape) == (n, idx.shape[1], d), "gather-shape", f"{tuple(g.shape)}")
        for i in range(n):
            for j in range(idx.shape[1]):
                ctx.saw("gathered")
                ctx.expect(torch.equal(g[i, j], data[i, int(idx[i, j])]), "gather", f"[{i},{j}]")
        parts = [torch.randn(n, m) for _ in range(rng.randint(1, 4))]
        s = tu.stack(parts)
        ctx.expect(tuple(s.shape) == (len(parts), n, m) and all(torch.equal(a, b) for a, b in zip(s, parts)), "stack", "")
        lo, hi = torch.randn(1, m), torch.rand(1, m) * 3 + 0.2
        lo2, hi2 = torch.randn(1, m), torch.rand(1, m) * 3 + 0.2
        u = torch.rand(n, m)
        a, b = lo + u * hi, lo2 + u * hi2
        r = tu.rescale_torch_tensor(a, lo2, lo2 + hi2, lo, lo + hi)
        ctx.close(r, b, "rescale", rtol=1e-4, atol=1e-4)
        arrays = {"a": np.arange(n), "b": np.random.rand(n, m), "c": np.float32(np.random.rand(m))}
        t = tu.dict_to_tensor(arrays)
        ctx.expect(set(t) == set(arrays) and all(np.array_equal(t[x].numpy(), v) and t[x].numpy().dtype == v.dtype for x, v in arrays.items()), "dictionary-to-tensor", "")
        q = rng.randint(1, 6)
        sm = subsequent_mask(q, torch.device("cpu"))
        ctx.expect([[bool(v) for v in row] for row in sm[0]] == [[j <= i for j in range(q)] for i in range(q)], "subsequent-mask", "")
        seq = torch.tensor([[rng.choice([PADDING_SYMBOL, 1, 2, 5]) for _ in range(q)] for _ in range(n)])
        pm = subsequent_and_padding_mask(seq)
        ctx.expect(all(bool(pm[r, i, j]) == (j <= i and int(seq[r, j]) != PADDING_SYMBOL) for r in range(n) for i in range(q) for j in range(q)), "padding-mask", "")
        if k % 8 == 0:
            lin = torch.jit.script(torch.nn.Linear(m, 2))
            buf = tu.export_module_to_buffer(lin)
            again = torch.jit.load(io.BytesIO(buf.getvalue()))
            ctx.expect(torch.equal(again(x), lin(x)), "exported-module", "")
            ctx.expect(tu.get_device(lin) == torch.device("cpu"), "module-device", "")


def run(ctx):
    for part, fn, q, t in (("operations", operations, 160, 1500), ("from_dict", from_dicts, 150, 900), ("ranking", ranking, 80, 600), ("slates", slates, 80, 600), ("configs", configs, 60, 300), ("helpers", helpers, 100, 800)):
        with ctx.part(part):
            for k in range(ctx.n(q, t)):
                fn(ctx, k)
