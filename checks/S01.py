"""S01: exported predictors compute what the trained model computes."""
import vf.quiet  # noqa
import copy
import io
import itertools

import numpy as np
import torch
import torch.nn as nn
import reagent.types as rlt
from reagent.models import ModelBase
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNN
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.net_builder.categorical_dqn.categorical import Categorical
from reagent.net_builder.continuous_actor.dirichlet_fully_connected import DirichletFullyConnected
from reagent.net_builder.continuous_actor.fully_connected import FullyConnected as Actor
from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected
from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as DiscreteActor
from reagent.net_builder.discrete_dqn.dueling import Dueling
from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected
from reagent.net_builder.discrete_dqn.fully_connected_with_embedding import FullyConnectedWithEmbedding
from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected as Parametric
from reagent.net_builder.quantile_dqn.dueling_quantile import DuelingQuantile
from reagent.net_builder.quantile_dqn.quantile import Quantile
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.prediction import predictor_wrapper as pw
from reagent.preprocessing.preprocessor import Preprocessor

from vf.features import EPS, feature_set, make_raw, reference
from vf.train import same, snapshot

RULE = (
    "Every serving module the builders and wrappers offer (discrete, dueling, quantile, categorical, embedding, parametric, deterministic "
    "and sampling actors, ranking actors, sequence reward with one or several horizons, compressed models, world models, slate scorers and "
    "slate reward models) is exported from networks left in training mode with random weights and normalisation statistics, over random "
    "feature sets of every type, and queried with batches of 1-7 rows, missing values, sparse lists in any key order. Outputs must equal the "
    "trained network applied to features preprocessed anew (each column checked against its definition), rows must not depend on the batch, "
    "and the reloaded module must answer identically."
)
REQUIRED = {"exports": 60, "queries": 200, "rows": 400, "reloaded": 60, "row_alone": 400, "missing_values": 200, "sparse_lists": 60, "actions_in_range": 100, "candidates": 40, "plans": 200, "columns": 2000, "sampled_actions": 20}


def norm_of(rng, types=None, n=None, max_n=5):
    out = feature_set(rng, types=types, n=n, max_n=max_n)
    return {k: p for k, p in out.items()}


def raw_rows(ctx, rng, norm, order, n):
    v, p = torch.zeros(n, len(order)), torch.zeros(n, len(order))
    for i in range(n):
        for j, f in enumerate(order):
            here = rng.random() < 0.85
            v[i, j] = make_raw(rng, norm[f]) if here else rng.choice([0.0, -7.0, 3.0])
            p[i, j] = float(here)
            ctx.saw("missing_values", not here)
    return v, p


def preprocessed(ctx, norm, raw):
    """eager preprocessing anew, each column against its definition"""
    pre = Preprocessor(norm, False)
    out = pre(*raw)
    at = 0
    for j, f in enumerate(pre.sorted_features):
        for i in range(raw[0].shape[0]):
            want, tol = reference(norm[f], float(raw[0][i, j]), bool(raw[1][i, j]))
            ctx.saw("columns")
            ctx.expect(all(abs(a - b) <= tol for a, b in zip(out[i, at : at + len(want)].tolist(), want)), "feature-definition", f"{norm[f].feature_type} {float(raw[0][i, j])}: {out[i, at:at+len(want)].tolist()} want {want}")
        at += len(want)
    return out


def shake(net):
    """random weights and statistics; leaves the network in training mode"""
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn_like(p) * 0.6)
        for name, b in net.named_buffers():
            if name.endswith("running_mean"):
                b.copy_(torch.randn_like(b))
            elif name.endswith("running_var"):
                b.copy_(torch.rand_like(b) + 0.3)
    net.train()
    return net


def reload(m):
    f = io.BytesIO()
    torch.jit.save(m, f)
    f.seek(0)
    return torch.jit.load(f)


def flat(out):
    return [x for x in (out if isinstance(out, (tuple, list)) else [out]) if isinstance(x, torch.Tensor)]


def examine(ctx, kind, module, query, expected, cut, n, names=None, seeded=False, rtol=1e-4, atol=1e-4):
    """one exported module, one batch: values, names, reload, row independence"""
    ctx.saw("queries")
    ctx.saw("rows", n)

    def ask(m, q, seed=7):
        torch.manual_seed(seed)
        with torch.no_grad():
            return m(*q)

    snap = snapshot(list(flat_inputs(query)))
    out = ask(module, query)
    ctx.expect(not same(snap, list(flat_inputs(query))), kind + "-request-changed", "")
    if names is not None:
        ctx.expect(list(out[0]) == names, kind + "-action-names", f"{out[0]} want {names}")
    torch.manual_seed(7)
    with torch.no_grad():
        want = expected()
    got = flat(out)
    ctx.require(len(got) == len(want), kind + "-outputs", f"{len(got)} want {len(want)}")
    for g, w in zip(got, want):
        ctx.require(tuple(g.shape) == tuple(w.shape), kind + "-shape", f"{tuple(g.shape)} want {tuple(w.shape)}")
        ctx.close(g, w, kind + "-value", rtol=rtol, atol=atol)
    if not seeded:
        for i in range(n):
            ctx.saw("row_alone")
            for g, w in zip(flat(ask(module, cut(query, [i]))), got):
                ctx.close(g, w[i : i + 1], kind + "-row-alone", rtol=1e-4, atol=1e-4)
        order = list(range(n))[::-1]
        for g, w in zip(flat(ask(module, cut(query, order))), got):
            ctx.close(g, w[order], kind + "-rows-reordered", rtol=1e-4, atol=1e-4)
    return got


def flat_inputs(q):
    if isinstance(q, torch.Tensor):
        yield q
    elif isinstance(q, dict):
        for v in q.values():
            yield from flat_inputs(v)
    elif isinstance(q, (tuple, list)):
        for v in q:
            yield from flat_inputs(v)


def rows_of(q, idx):
    """select rows of dense requests"""
    if isinstance(q, torch.Tensor):
        return q[idx]
    return type(q)(rows_of(x, idx) for x in q)


def ragged(q, idx):
    """select rows of a serving request with sparse lists"""
    def pick(offsets, *cols):
        if len(offsets) <= max(idx):  # the placeholder for "no such features"
            return (offsets,) + cols
        ends = offsets.tolist()[1:] + [len(cols[0])]
        spans = [(offsets.tolist()[i], ends[i]) for i in idx]
        off = np.cumsum([0] + [e - s for s, e in spans])[:-1]
        return (torch.tensor(off, dtype=torch.long),) + tuple(torch.cat([c[s:e] for s, e in spans]) if spans else c[:0] for c in cols)

    s = q[0]
    return (rlt.ServingFeatureData(tuple(x[idx] for x in s[0]), {k: pick(*v) for k, v in s[1].items()}, {k: pick(*v) for k, v in s[2].items()}),)


def sparse_config(rng):
    tables = {f"t{j}": rlt.IdMapping(ids=rng.sample(range(-5, 60), rng.randint(1, 5))) for j in range(rng.randint(1, 2))}
    fids = rng.sample(list(range(300, 320)) + [42], 4)
    mk = lambda c, f: c(name=f"f{f}", feature_id=f, id_mapping_name=rng.choice(sorted(tables)))  # noqa
    nl = rng.randint(0, 2)
    ns = rng.randint(0 if nl else 1, 2)
    return rlt.ModelFeatureConfig(id_mapping_config=tables, id_list_feature_configs=[mk(rlt.IdListFeatureConfig, f) for f in fids[:nl]], id_score_list_feature_configs=[mk(rlt.IdScoreListFeatureConfig, f) for f in fids[nl : nl + ns]])


def sparse_rows(ctx, rng, cfg, n):
    """raw serving dictionaries and what the network should be given"""
    def column(c):
        ids = cfg.id_mapping_config[c.id_mapping_name].ids
        lens = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
        ctx.saw("sparse_lists", n)
        vals = [rng.choice(ids) for _ in range(sum(lens))]
        off = torch.tensor(([0] + list(np.cumsum(lens)))[:n], dtype=torch.long)
        return off, torch.tensor(vals, dtype=torch.long), torch.tensor([ids.index(v) for v in vals], dtype=torch.long)

    raw_l, raw_s, feat_l, feat_s = {}, {}, {}, {}
    for c in cfg.id_list_feature_configs:
        off, vals, idx = column(c)
        raw_l[c.feature_id], feat_l[c.name] = (off, vals), (off, idx)
    for c in cfg.id_score_list_feature_configs:
        off, vals, idx = column(c)
        w = torch.randn(len(vals))
        raw_s[c.feature_id], feat_s[c.name] = (off, vals, w), (off, idx, w)
    if rng.random() < 0.5:  # a feature the model never heard of
        raw_l[999] = (torch.zeros(n, dtype=torch.long), torch.tensor([1, 2, 3]))

    def shuffled(d):
        k = list(d)
        rng.shuffle(k)
        return {x: d[x] for x in k}
    return shuffled(raw_l) or dict(pw.FAKE_STATE_ID_LIST_FEATURES), shuffled(raw_s) or dict(pw.FAKE_STATE_ID_SCORE_LIST_FEATURES), feat_l, feat_s


def dense_request(raw):
    return (rlt.ServingFeatureData(raw, dict(pw.FAKE_STATE_ID_LIST_FEATURES), dict(pw.FAKE_STATE_ID_SCORE_LIST_FEATURES)),)


def dense_cut(q, idx):
    return (rlt.ServingFeatureData(tuple(x[idx] for x in q[0][0]), q[0][1], q[0][2]),)


def layers(rng):
    n = rng.randint(1, 2)
    return dict(sizes=[rng.choice([2, 4, 6]) for _ in range(n)], activations=[rng.choice(["relu", "tanh", "leaky_relu", "linear"]) for _ in range(n)])


def discrete(ctx, k):
    rng = ctx.sub(f"d{k}")
    ctx.seed_all(f"d{k}")
    kind = ["fully", "dueling", "embedding", "quantile", "dueling_quantile", "categorical"][k % 6]
    norm = norm_of(rng)
    nd = NormalizationData(dense_normalization_parameters=norm)
    names = [f"a{j}" for j in rng.sample(range(9), rng.randint(2, 4))]
    cfg = sparse_config(rng) if kind == "embedding" else rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=str(f), feature_id=f) for f in norm])
    atoms = rng.choice([2, 5])
    lay = layers(rng)
    with ctx.case("discrete", dict(kind=kind, features=[p.feature_type for p in norm.values()], actions=names, **lay), distinct=k):
        if kind == "fully":
            b = FullyConnected(**lay, dropout_ratio=rng.choice([0.0, 0.5]), use_batch_norm=rng.random() < 0.5)
            net = b.build_q_network(cfg, nd, len(names))
        elif kind == "dueling":
            b = Dueling(**lay)
            net = b.build_q_network(cfg, nd, len(names))
        elif kind == "embedding":
            b = FullyConnectedWithEmbedding(**lay, embedding_dim=rng.choice([1, 3]), dropout_ratio=rng.choice([0.0, 0.5]))
            net = b.build_q_network(cfg, nd, len(names))
        elif kind == "quantile":
            b = Quantile(**lay, dropout_ratio=rng.choice([0.0, 0.5]))
            net = b.build_q_network(nd, len(names), atoms)
        elif kind == "dueling_quantile":
            b = DuelingQuantile(**lay)
            net = b.build_q_network(nd, len(names), atoms)
        else:
            b = Categorical(**lay)
            net = b.build_q_network(nd, len(names), atoms, rng.choice([-10, -2, 0]), rng.choice([1, 5, 100]))
        shake(net)
        ref = copy.deepcopy(net).eval()
        before = snapshot(dict(net.state_dict()))
        module = b.build_serving_module(net, nd, names, cfg)
        ctx.saw("exports")
        ctx.expect(not same(before, dict(net.state_dict())), "export-changes-weights", "")
        again = reload(module)
        order = Preprocessor(norm, False).sorted_features
        for n in (1, rng.randint(2, 7), rng.choice([2, 3])):
            raw = raw_rows(ctx, rng, norm, order, n)
            x = preprocessed(ctx, norm, raw)
            if kind == "embedding":
                rl, rs, fl, fs = sparse_rows(ctx, rng, cfg, n)
                q, cut = (rlt.ServingFeatureData(raw, rl, rs),), ragged
                data = rlt.FeatureData(x, id_list_features=fl, id_score_list_features=fs)
            else:
                q, cut, data = dense_request(raw), dense_cut, rlt.FeatureData(x)

            def expected():
                y = ref(data)
                return [y.mean(2)] if "quantile" in kind else [y]
            got = examine(ctx, kind, module, q, expected, cut, n, names)
            if kind == "embedding":
                # independently: sums of the embeddings, in the configured order
                emb = ref[0] if isinstance(ref, nn.Sequential) else next(m for m in ref.modules() if type(m).__name__ == "EmbeddingBagConcat")
                cols = []
                for c in list(cfg.id_list_feature_configs) + list(cfg.id_score_list_feature_configs):
                    off, idx, *w = (fl.get(c.name) or fs.get(c.name))
                    ends = off.tolist()[1:] + [len(idx)]
                    t = emb.embedding_bags[c.id_mapping_name].weight.detach()
                    cols.append(torch.stack([sum([t[idx[e]] * (w[0][e] if w else 1.0) for e in range(s, z)], torch.zeros(t.shape[1])) for s, z in zip(off.tolist(), ends)]))
                rest = [m for m in ref.children()][1:] if isinstance(ref, nn.Sequential) else None
                if rest is not None:
                    y = torch.cat(cols + [x], 1)
                    with torch.no_grad():
                        for m in rest:
                            y = m(y)
                    ctx.close(got[0], y, "embedding-definition", rtol=1e-4, atol=1e-4)
            ctx.saw("reloaded")
            with torch.no_grad():
                r = again(*q)
            ctx.expect(list(r[0]) == names and torch.equal(r[1], got[0]), "reloaded-answer", f"{r} {got}")


def parametric(ctx, k):
    rng = ctx.sub(f"p{k}")
    ctx.seed_all(f"p{k}")
    sn, an = norm_of(rng), norm_of(rng)
    sd, ad = NormalizationData(dense_normalization_parameters=sn), NormalizationData(dense_normalization_parameters=an)
    lay = layers(rng)
    with ctx.case("parametric", dict(lay=lay), distinct=k):
        b = Parametric(**lay, use_batch_norm=rng.random() < 0.4, use_layer_norm=rng.random() < 0.3)
        net = shake(b.build_q_network(sd, ad, 1))
        ref = copy.deepcopy(net).eval()
        module = b.build_serving_module(net, sd, ad)
        ctx.saw("exports")
        again = reload(module)
        so, ao = Preprocessor(sn, False).sorted_features, Preprocessor(an, False).sorted_features
        for n in (1, rng.randint(2, 7)):
            s, a = raw_rows(ctx, rng, sn, so, n), raw_rows(ctx, rng, an, ao, n)
            if n > 1 and rng.random() < 0.5:  # every candidate against the same state
                s = tuple(x[:1].repeat(n, 1) for x in s)
                ctx.saw("candidates", n)
            ps, pa = preprocessed(ctx, sn, s), preprocessed(ctx, an, a)
            got = examine(ctx, "parametric", module, (s, a), lambda: [ref(rlt.FeatureData(ps), rlt.FeatureData(pa))], rows_of, n, ["Q"])
            ctx.saw("reloaded")
            with torch.no_grad():
                ctx.expect(torch.equal(again(s, a)[1], got[0]), "reloaded-answer", "")


def to_serving(norm, act):
    """the declared mapping from the training range to the serving range"""
    out = act.clone().double()
    for j, f in enumerate(sorted(norm)):
        p = norm[f]
        if p.feature_type == "CONTINUOUS_ACTION":
            c = out[:, j].clamp(-1 + EPS, 1 - EPS)
            out[:, j] = p.min_value + (c + 1 - EPS) * (p.max_value - p.min_value) / (2 * (1 - EPS))
    return out


def actor(ctx, k):
    rng = ctx.sub(f"a{k}")
    ctx.seed_all(f"a{k}")
    kind = ["deterministic", "gaussian", "gaussian_mean", "dirichlet", "discrete", "ranking"][k % 6]
    sn = norm_of(rng)
    sd = NormalizationData(dense_normalization_parameters=sn)
    A = rng.randint(1, 4)
    an = norm_of(rng, types=["DO_NOT_PREPROCESS" if kind == "dirichlet" else "CONTINUOUS_ACTION"], n=max(A, 2) if kind == "dirichlet" else A)
    if kind != "dirichlet" and rng.random() < 0.3:
        an = {f: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for f in an}
    ad = NormalizationData(dense_normalization_parameters=an)
    A = len(an)
    lay = layers(rng)
    cn = norm_of(rng)
    with ctx.case("actor", dict(kind=kind, lay=lay, actions=[(p.feature_type, p.min_value, p.max_value) for p in an.values()]), distinct=k):
        C = rng.randint(1, 3)
        post = True
        order = Preprocessor(sn, False).sorted_features
        corder = Preprocessor(cn, False).sorted_features
        if kind in ("deterministic", "ranking"):
            b = Actor(**lay, use_batch_norm=rng.random() < 0.4, action_activation=rng.choice(["tanh", "linear"]))
        elif kind == "discrete":
            b, post = DiscreteActor(**lay, use_batch_norm=rng.random() < 0.4), False
        elif kind == "dirichlet":
            b = DirichletFullyConnected(**lay, use_batch_norm=rng.random() < 0.4)
        else:
            b = GaussianFullyConnected(**lay, use_batch_norm=rng.random() < 0.4, use_layer_norm=rng.random() < 0.4)
        if kind == "ranking":
            wide = NormalizationData(dense_normalization_parameters={j: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for j in range(width(sn) + C * width(cn))})
            net = shake(b.build_actor(wide, ad))
        elif kind == "discrete":
            net = shake(b.build_actor(sd, A))
        else:
            net = shake(b.build_actor(sd, ad))
        ref = copy.deepcopy(net).eval()
        if kind == "ranking":
            module = b.build_ranking_serving_module(net, sd, NormalizationData(dense_normalization_parameters=cn), C, ad)
        elif kind == "discrete":
            module = b.build_serving_module(net, sd, list(range(A)))
        else:
            module = b.build_serving_module(net, sd, ad, serve_mean_policy=kind == "gaussian_mean")
        ctx.saw("exports")
        again = reload(module)
        seeded = kind in ("gaussian", "dirichlet")
        for n in (1, rng.randint(2, 6)):
            raw = raw_rows(ctx, rng, sn, order, n)
            x = preprocessed(ctx, sn, raw)
            q = (raw,)
            if kind == "ranking":
                docs = [raw_rows(ctx, rng, cn, corder, n) for _ in range(C)]
                ctx.saw("candidates", C)
                x = torch.cat([x] + [preprocessed(ctx, cn, d) for d in docs], 1)
                q = (raw, docs)

            def expected():
                o = ref(rlt.FeatureData(x))
                y = o.squashed_mean if kind == "gaussian_mean" else o.action
                return [to_serving(an, y) if post else y]
            got = examine(ctx, kind, module, q, expected, rows_of, n, seeded=seeded, rtol=1e-3, atol=1e-3)
            ctx.saw("sampled_actions", n if seeded else 0)
            if post:
                for j, f in enumerate(sorted(an)):
                    if an[f].feature_type == "CONTINUOUS_ACTION":
                        ctx.saw("actions_in_range", n)
                        lo, hi = an[f].min_value, an[f].max_value
                        e = 1e-5 * (1 + abs(lo) + abs(hi))
                        ctx.expect(bool(((got[0][:, j] >= lo - e) & (got[0][:, j] <= hi + e)).all()), "action-outside-range", f"{got[0][:, j]} not in {lo, hi}")
            if seeded:  # another draw is another action
                torch.manual_seed(8)
                with torch.no_grad():
                    other = module(*q)
                torch.manual_seed(8)
                with torch.no_grad():
                    ctx.close(other, expected()[0], "second-draw", rtol=1e-3, atol=1e-3)
            torch.manual_seed(7)
            with torch.no_grad():
                r = again(*q)
            ctx.saw("reloaded")
            ctx.close(r, got[0], "reloaded-answer", rtol=0 if not seeded else 1e-6, atol=0 if not seeded else 1e-6)


def width(norm):
    return sum(len(p.possible_values) if p.feature_type == "ENUM" else 1 for p in norm.values())


def planner(ctx, k):
    """sequence reward (one and several horizons) and compressed models"""
    rng = ctx.sub(f"s{k}")
    ctx.seed_all(f"s{k}")
    kind = ["sequence", "horizons", "compressed"][k % 3]
    sn = norm_of(rng)
    order, d = Preprocessor(sn, False).sorted_features, width(sn)
    na, T = rng.randint(1, 3), rng.randint(1, 3)
    names = [f"a{j}" for j in rng.sample(range(9), na)]
    with ctx.case("planner", dict(kind=kind, actions=na, steps=T), distinct=k):
        net = shake(Seq2RewardNetwork(d, na, rng.choice([2, 4]), rng.choice([1, 2])))
        step = shake(FullyConnectedNetwork([d, 4, T], ["relu", "linear"]))
        comp = shake(FullyConnectedNetwork([d, 4, na], ["relu", "linear"]))
        net.eval(), step.eval(), comp.eval()
        pre = Preprocessor(sn, False)
        if kind == "sequence":
            m = pw.Seq2RewardWithPreprocessor(net, pre, T, na)
        elif kind == "horizons":
            m = pw.Seq2RewardPlanShortSeqWithPreprocessor(net, step, pre, T, na)
        else:
            m = pw.CompressModelWithPreprocessor(comp, pre, rlt.ModelFeatureConfig())
        module = pw.DiscreteDqnPredictorWrapper(m, names, rlt.ModelFeatureConfig())
        ctx.saw("exports")
        again = reload(module)
        for n in (1, rng.randint(2, 5)):
            raw = raw_rows(ctx, rng, sn, order, n)
            x = preprocessed(ctx, sn, raw)

            def best(steps):
                out = torch.full((n, na), float("-inf"))
                for i in range(n):
                    for plan in itertools.product(range(na), repeat=steps):
                        ctx.saw("plans")
                        a = torch.nn.functional.one_hot(torch.tensor(plan), na).float().unsqueeze(1)
                        v = float(net(rlt.FeatureData(x[i].reshape(1, 1, -1)), rlt.FeatureData(a)).acc_reward)
                        out[i, plan[0]] = max(out[i, plan[0]], v)
                return out

            def expected():
                if kind == "compressed":
                    return [comp(x)]
                if kind == "sequence":
                    return [best(T)]
                p = torch.softmax(step(x), 1)
                return [sum(best(t + 1) * p[:, t : t + 1] for t in range(T))]
            got = examine(ctx, kind, module, dense_request(raw), expected, dense_cut, n, names)
            ctx.saw("reloaded")
            with torch.no_grad():
                ctx.expect(torch.equal(again(*dense_request(raw))[1], got[0]), "reloaded-answer", "")


class Scorer(ModelBase):
    def __init__(self, s, c):
        super().__init__()
        self.a, self.b = nn.Linear(s + c, 4), nn.Linear(4, 1)

    def forward(self, x):
        docs = x.candidate_docs.float_features
        s = x.float_features.unsqueeze(1).repeat(1, docs.shape[1], 1)
        return self.b(torch.tanh(self.a(torch.cat([s, docs], 2))))


def slates(ctx, k):
    rng = ctx.sub(f"l{k}")
    ctx.seed_all(f"l{k}")
    kind = ["scorer", "gru", "transformer", "world", "preprocessor"][k % 5]
    sn, cn = norm_of(rng), norm_of(rng)
    so, co = Preprocessor(sn, False).sorted_features, Preprocessor(cn, False).sorted_features
    s, c = width(sn), width(cn)
    src = rng.randint(1, 4)
    tgt = rng.randint(1, src)
    with ctx.case("slates", dict(kind=kind, src=src, tgt=tgt), distinct=k):
        sp, cp = Preprocessor(sn, False), Preprocessor(cn, False)
        if kind == "world":
            na, seq = rng.randint(1, 3), 1
            net = shake(MDNRNN(state_dim=s, action_dim=na, num_hiddens=3, num_hidden_layers=rng.choice([1, 2]), num_gaussians=rng.choice([1, 2]))).eval()
            m = pw.MDNRNNWithPreprocessor(net, sp, seq, na)
        elif kind == "scorer":
            net = shake(Scorer(s, c)).eval()
            m = pw.LearnVMSlateWithPreprocessor(net, sp, cp)
        elif kind == "preprocessor":
            m = pw.SlateRankingPreprocessor(sp, cp)
        else:
            kw = dict(state_dim=s, candidate_dim=c, num_stacked_layers=rng.choice([1, 2]), max_src_seq_len=src, max_tgt_seq_len=tgt)
            net = Seq2SlateGRURewardNet(dim_model=4, **kw) if kind == "gru" else Seq2SlateTransformerRewardNet(dim_model=4, num_heads=rng.choice([1, 2]), dim_feedforward=4, **kw)
            shake(net).eval()
            m = pw.Seq2SlateRewardWithPreprocessor(net, sp, cp)
        m.eval()
        module = torch.jit.trace(m, m.input_prototype(), check_trace=False)
        ctx.saw("exports")
        again = reload(module)
        for n in (1, rng.randint(2, 5)):
            raw = raw_rows(ctx, rng, sn, so, n)
            x = preprocessed(ctx, sn, raw)
            if kind == "world":
                act = torch.randn(1, n, na)
                q = (raw, act)
                cut = lambda q, idx: (tuple(z[idx] for z in q[0]), q[1][:, idx])  # noqa
                with torch.no_grad():
                    out, want = module(*q), net(act, x.unsqueeze(0))
                ctx.saw("queries")
                ctx.saw("rows", n)
                for g, w in zip(out[:5], want[:5]):
                    ctx.close(g, w, "world-value", rtol=1e-4, atol=1e-4)
                for i in range(n):
                    ctx.saw("row_alone")
                    with torch.no_grad():
                        one = module(*cut(q, [i]))
                    for g, w in zip(one[:5], out[:5]):
                        ctx.close(g, w[:, i : i + 1], "world-row-alone", rtol=1e-4, atol=1e-4)
                with torch.no_grad():
                    ctx.expect(all(torch.equal(a, b) for a, b in zip(again(*q)[:5], out[:5])), "reloaded-answer", "")
                ctx.saw("reloaded")
                continue
            L = src if kind in ("gru", "transformer") else rng.randint(1, 6)
            docs = [raw_rows(ctx, rng, cn, co, L) for _ in range(n)]
            ctx.saw("candidates", n * L)
            pc = torch.stack([preprocessed(ctx, cn, z) for z in docs])
            q = (raw, (torch.stack([z[0] for z in docs]), torch.stack([z[1] for z in docs])))

            def expected():
                if kind == "preprocessor":
                    return [x, pc]
                if kind == "scorer":
                    return [net.b(torch.tanh(net.a(torch.cat([x.unsqueeze(1).repeat(1, L, 1), pc], 2)))).squeeze(2)]
                inp = rlt.PreprocessedRankingInput.from_input(state=x, candidates=pc, device=torch.device("cpu"), action=torch.arange(tgt).repeat(n, 1))
                return [net(inp).predicted_reward]
            got = examine(ctx, "slate-" + kind, module, q, expected, rows_of, n)
            with torch.no_grad():
                ctx.expect(all(torch.equal(a, b) for a, b in zip(flat(again(*q)), got)), "reloaded-answer", "")
            ctx.saw("reloaded")


def run(ctx):
    for name, f, q, t in [("discrete", discrete, 48, 700), ("parametric", parametric, 12, 150), ("actor", actor, 48, 600), ("planner", planner, 24, 250), ("slates", slates, 30, 300)]:
        with ctx.part(name):
            for k in range(ctx.n(q, t)):
                f(ctx, k)
