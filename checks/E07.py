"""E07: ranking and world-model evaluators report true metrics, aggregated over exactly the batches evaluated."""
import vf.quiet  # noqa
import copy
import importlib
import math

import numpy as np
import torch
import torch.nn as nn
import reagent.types as rlt
from reagent.core.tracker import Observer
from reagent.evaluation.ranking_listwise_evaluator import RankingListwiseEvaluator
from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator, FeatureSensitivityEvaluator, LossEvaluator
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.seq2slate import BaselineNet
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import MDNRNNTrainerParameters, Seq2SlateParameters
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer

from vf.slates import make_net, slate_batch
from vf.train import same, snapshot

T08 = importlib.import_module("checks.T08")

RULE = (
    "Random sequence rankers (all output architectures), logged slates with and without positive labels, several batches per evaluation "
    "round and several rounds: cross entropy, DCG, NDCG, average precision and AUC of the model's order and of the logged order are "
    "recomputed per row from their formulas and averaged over the rows that have both labels; advantages, baseline error, slate "
    "probabilities and the evaluation pages handed over after a round are recomputed row by row. World-model feature importance "
    "(one-column, enumerated, discrete-action) is the loss increase after replacing the feature, sensitivity the mean summed deviation "
    "of the predictions actually made under a recorded permutation of the actions between rows. No evaluation may change weights, mode or data."
)
REQUIRED = {"listwise_rows": 150, "skipped_rows": 20, "listwise_batches": 30, "loss_only": 5, "pg_batches": 30, "pg_rounds": 12, "pages": 20, "baselines": 8, "importance": 80, "enum_features": 15, "sensitivity": 20, "shuffled": 10, "reward_rounds": 10, "s2r_loss": 10, "compress": 5, "seeing_training_mode": 10}


class Rec(Observer):
    def __init__(self, keys):
        super().__init__(keys)
        self.got = {k: [] for k in keys}

    def update(self, key, value):
        self.got[key].append(value)


def row_metrics(truth, order):
    """textbook metrics of one ranking (best first) against binary relevance"""
    n = len(truth)
    rel = [truth[x] for x in order]
    dcg = sum(v / math.log2(j + 2) for j, v in enumerate(rel))
    ideal = sum(v / math.log2(j + 2) for j, v in enumerate(sorted(rel, reverse=True)))
    hits, ap = 0, 0.0
    for j, v in enumerate(rel):
        if v > 0:
            hits += 1
            ap += hits / (j + 1)
    pos, neg = [j for j in range(n) if rel[j] > 0], [j for j in range(n) if rel[j] <= 0]
    auc = np.mean([p < q for p in pos for q in neg])
    return dict(dcg=dcg, ndcg=dcg / ideal, map=ap / hits, auc=auc)


LIST_KEYS = ["cross_entropy_loss", "dcg", "ndcg", "mean_ap", "auc", "base_dcg", "base_ndcg", "base_map", "base_auc"]


def listwise(ctx, k):
    rng = ctx.sub(f"l{k}")
    ctx.seed_all(f"l{k}")
    size = rng.randint(2, 7)
    net = make_net(rng, Seq2SlateOutputArch.ENCODER_SCORE, size, size, spread=3.0)
    cpe = k % 4 != 0
    ev = RankingListwiseEvaluator(net, size, cpe)
    rec = Rec(LIST_KEYS)
    ev.add_observer(rec)
    net.train(rng.random() < 0.5)
    for m in range(rng.randint(1, 3)):
        n = rng.choice([1, 2, 4, 9])
        with ctx.case("listwise", dict(size=size, n=n, cpe=cpe), distinct=(k, m)):
            if cpe:
                pr = torch.tensor([[float(rng.random() < 0.4) for _ in range(size)] for _ in range(n)])
                if rng.random() < 0.3:
                    pr[rng.randrange(n)] = float(rng.randrange(2))
                i = rng.randrange(n)
                pr[i] = 0.0
                pr[i, rng.randrange(size)] = 1.0
            else:
                pr = torch.softmax(torch.randn(n, size) * 2, 1)
            b = slate_batch(rng, net, n, position_reward=pr)
            snap, before, mode = snapshot(b), snapshot(dict(net.state_dict())), net.training
            for v in rec.got.values():
                v.clear()
            net.eval()
            with torch.no_grad():
                sc = net(b, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
            net.train(mode)
            ctx.saw("seeing_training_mode", mode)
            # scores come in the order of the logged slate
            logged = (b.tgt_out_idx - 2).tolist()
            ev.evaluate(b)
            ctx.saw("listwise_batches")
            logq = torch.log_softmax(sc.double(), 1).numpy()
            p = pr.double().numpy()
            ce = (np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0) - p * logq).sum() / n
            ctx.require(len(rec.got["cross_entropy_loss"]) == 1, "one-report-per-batch", "")
            ctx.close(rec.got["cross_entropy_loss"][0], [ce], "cross-entropy", rtol=1e-4, atol=1e-5)
            if not cpe:
                ctx.saw("loss_only")
                ctx.expect(not any(rec.got[x] for x in LIST_KEYS[1:]), "metrics-not-asked-for", "")
            else:
                rows, base = [], []
                gaps = torch.sort(sc, 1).values.diff(dim=1)
                tied = bool((gaps < 1e-5).any())  # the order among equal scores is nobody's business
                for r in range(n):
                    if len(set(pr[r].tolist())) < 2:
                        ctx.saw("skipped_rows")
                        continue
                    ctx.saw("listwise_rows", not tied)
                    truth = dict(zip(logged[r], pr[r].tolist()))
                    score = dict(zip(logged[r], sc[r].tolist()))
                    rows.append(row_metrics(truth, sorted(range(size), key=lambda x: -score[x])))
                    base.append(row_metrics(truth, logged[r]))
                for name, key, src in (("dcg", "dcg", rows), ("ndcg", "ndcg", rows), ("mean_ap", "map", rows), ("auc", "auc", rows), ("base_dcg", "dcg", base), ("base_ndcg", "ndcg", base), ("base_map", "map", base), ("base_auc", "auc", base)):
                    ctx.require(len(rec.got[name]) == 1, "one-report-per-batch", name)
                    if tied and src is rows:
                        continue
                    ctx.close(rec.got[name][0], [np.mean([x[key] for x in src])], "listwise-" + name, rtol=1e-5, atol=1e-6)
            ctx.expect(net.training == mode and not same(before, dict(net.state_dict())) and not same(snap, b), "listwise-leaves-no-trace", f"{same(snap, b)}")


class SlateReward(nn.Module):
    def __init__(self, rng):
        super().__init__()
        self.k = [rng.gauss(0, 1) for _ in range(4)]

    def forward(self, state, src, tgt, mask, idx):
        w = torch.arange(1, tgt.shape[1] + 1).float().reshape(1, -1, 1)
        return (self.k[0] * state.sum(1) + self.k[1] * src.sum((1, 2)) + self.k[2] * (tgt * w).sum((1, 2)) + self.k[3] * (idx.float() * w[..., 0]).sum(1)).reshape(-1, 1)


PG = ["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs"]
PAGE = ["model_propensities", "model_rewards", "action_mask", "logged_rewards", "model_rewards_for_logged_action", "logged_propensities"]


def sgd():
    return Optimizer__Union(SGD=classes["SGD"](lr=0.1))


def policy_gradient(ctx, k):
    rng = ctx.sub(f"g{k}")
    ctx.seed_all(f"g{k}")
    arch = [Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT][k % 2]
    src = rng.randint(2, 4)
    tgt = src if k % 2 else rng.randint(1, src)
    net = make_net(rng, arch, src, tgt, spread=3.0)
    base = BaselineNet(net.state_dim, 4, 1) if rng.random() < 0.6 else None
    t = Seq2SlateTrainer(net, minibatch_size=4, parameters=Seq2SlateParameters(), baseline_net=base, policy_optimizer=sgd(), baseline_optimizer=sgd(), policy_gradient_interval=1)
    cpe = k % 5 != 4
    rw = SlateReward(rng)
    ev = RankingPolicyGradientEvaluator(t, cpe, rw if cpe or rng.random() < 0.5 else None)
    rec = Rec(PG + ["eval_data_pages_g", "eval_data_pages_ng"])
    ev.add_observer(rec)
    for rnd in range(2):
        want = {True: [], False: []}
        with ctx.case("policy_gradient", dict(arch=arch.name, src=src, tgt=tgt, baseline=base is not None, cpe=cpe), distinct=(k, rnd)):
            for v in rec.got.values():
                v.clear()
            net.train(rng.random() < 0.5)
            if base is not None:
                base.train(rng.random() < 0.5)
            count = rng.randint(1, 3)
            for m in range(count):
                n = rng.choice([1, 2, 5])
                b = slate_batch(rng, net, n, propensity=torch.rand(n, 1) + 0.1, reward=torch.randn(n, 1) * 2)
                mode = net.training
                net.eval()
                with torch.no_grad():
                    out = net(b, Seq2SlateMode.RANK_MODE, greedy=True)
                    if rng.random() < 0.5:
                        hit = torch.tensor([[rng.random() < 0.6] for _ in range(n)])
                        b = rlt.PreprocessedRankingInput.from_input(state=b.state.float_features, candidates=b.src_seq.float_features, device=torch.device("cpu"), action=torch.where(hit, out.ranked_tgt_out_idx, b.tgt_out_idx) - 2, logged_propensities=b.tgt_out_probs, slate_reward=b.slate_reward)
                    lp = net(b, Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
                    v = base(b) if base is not None else torch.zeros(n, 1)
                net.train(mode)
                bm = base.training if base is not None else None
                snap, before = snapshot(b), snapshot(dict(net.state_dict()))
                ev.evaluate(b)
                ctx.saw("pg_batches")
                ctx.saw("seeing_training_mode", mode)
                ctx.saw("baselines", base is not None)
                ctx.expect(net.training == mode and (base is None or base.training == bm) and not same(before, dict(net.state_dict())) and not same(snap, b), "ranking-leaves-no-trace", f"{same(snap, b)}")
                if not cpe:
                    continue
                for x in PG:
                    ctx.require(len(rec.got[x]) == m + 1, "one-report-per-batch", x)
                ctx.close(rec.got["eval_advantages"][-1], (b.slate_reward - v).flatten(), "advantages", rtol=1e-5, atol=1e-6)
                ctx.close(rec.got["eval_baseline_loss"][-1], [((b.slate_reward - v) ** 2).mean()] if base is not None else [0.0], "baseline-loss", rtol=1e-4, atol=1e-6)
                ctx.close(rec.got["logged_slate_rank_probs"][-1], lp.exp().flatten(), "logged-slate-probabilities", rtol=1e-4, atol=1e-7)
                ctx.close(rec.got["ranked_slate_rank_probs"][-1].flatten(), out.ranked_per_seq_probs.flatten(), "ranked-slate-probabilities", rtol=1e-4, atol=1e-7)
                g, cand = out.ranked_tgt_out_idx, b.src_seq.float_features
                take = lambda idx: torch.stack([cand[j][idx[j] - 2] for j in range(n)])  # noqa
                mine = lambda idx: rw(b.state.float_features, cand, take(idx), b.src_src_mask, idx)  # noqa
                for greedy in (True, False):
                    want[greedy].append(dict(model_propensities=torch.ones(n, 1) if greedy else lp.exp().reshape(-1, 1), model_rewards=mine(g), logged_rewards=b.slate_reward, logged_propensities=b.tgt_out_probs.reshape(-1, 1), model_rewards_for_logged_action=mine(b.tgt_out_idx),
                                             action_mask=torch.tensor([[float(torch.equal(g[j], b.tgt_out_idx[j]))] for j in range(n)]) if greedy else torch.ones(n, 1)))
            ctx.expect(not rec.got["eval_data_pages_g"] and not rec.got["eval_data_pages_ng"], "pages-before-the-end", "")
            ev.evaluate_post_training()
            ctx.saw("pg_rounds")
            for greedy, name in ((True, "eval_data_pages_g"), (False, "eval_data_pages_ng")):
                if not cpe:
                    ctx.expect(not rec.got[name], "pages-not-asked-for", "")
                    continue
                ctx.saw("pages")
                ctx.require(len(rec.got[name]) == 1, "one-page-per-round", f"{name} {len(rec.got[name])}")
                for f in PAGE:
                    ctx.close(getattr(rec.got[name][0], f), torch.cat([w[f] for w in want[greedy]]), f"page-{f}", rtol=1e-4, atol=1e-5)


def spans(rng, dim):
    """feature boundaries of a vector: single columns and enumerated groups"""
    out, at = [], 0
    while at < dim:
        w = min(rng.choice([1, 1, 2, 3]), dim - at)
        out.append((at, at + w))
        at += w
    return out


def fill_enum(rng, x, groups):
    """one-hot columns for the enumerated groups, no two categories equally frequent in all"""
    for a, e in groups:
        if e - a > 1:
            x[..., a:e] = 0
            flat = x.reshape(-1, x.shape[-1])
            for row in flat:
                row[a + rng.randrange(e - a)] = 1.0
    return x


def replaced(x, a, e):
    """the stand-in value of a feature: its mean, or for an enumerated one the category of median frequency (lower, first)"""
    flat = x.reshape(-1, x.shape[-1])[:, a:e]
    out = x.clone()
    if e - a == 1:
        out[..., a] = flat.double().mean().float()
    else:
        c = flat.sum(0).tolist()
        med = sorted(c)[(len(c) - 1) // 2]
        out[..., a:e] = 0
        out[..., a + c.index(med)] = 1
    return out


def world(ctx, k):
    rng = ctx.sub(f"w{k}")
    ctx.seed_all(f"w{k}")
    sd, ad, gs = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2])
    s, b = rng.choice([1, 2, 4]), rng.choice([1, 2, 5])
    net = MemoryNetwork(sd, ad, rng.choice([3, 5]), rng.choice([1, 2]), gs)
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(2.0)
    tr = MDNRNNTrainer(net, MDNRNNTrainerParameters(num_gaussians=gs, learning_rate=0.01, minibatch_size=b))
    disc = k % 3 == 0
    ss = spans(rng, sd)
    aa = [(j, j + 1) for j in range(ad)] if disc else spans(rng, ad)
    batch = T08.wm_batch(rng, s, b, sd, ad, disc)
    fill_enum(rng, batch.state.float_features, ss)
    if not disc:
        fill_enum(rng, batch.action, aa)
    with ctx.case("world", dict(s=s, b=b, sd=sd, ad=ad, state=ss, action=aa, discrete=disc), distinct=k):
        snap, before = snapshot(batch), snapshot(dict(net.state_dict()))
        loss = lambda bt: {x: float(y) for x, y in tr.get_loss(bt, state_dim=sd).items()}  # noqa
        orig = loss(batch)
        for x, y in LossEvaluator(tr, sd).evaluate(batch).items():
            ctx.close(y, orig[x], "loss-evaluator-" + x, rtol=1e-4, atol=1e-5)
        imp = FeatureImportanceEvaluator(tr, discrete_action=disc, state_feature_num=len(ss), action_feature_num=len(aa), sorted_action_feature_start_indices=[a for a, _ in aa], sorted_state_feature_start_indices=[a for a, _ in ss]).evaluate(batch)["feature_loss_increase"]
        ctx.require(len(imp) == len(aa) + len(ss), "importance-per-feature", f"{len(imp)}")
        for j, (a, e) in enumerate(aa + ss):
            nb = copy.deepcopy(batch)
            ctx.saw("importance")
            if j < len(aa):
                if disc:
                    nb.action[:] = 0
                    nb.action[:, :, j] = 1
                else:
                    ctx.saw("enum_features", e - a > 1)
                    nb.action = replaced(batch.action, a, e)
            else:
                ctx.saw("enum_features", e - a > 1)
                nb.state = rlt.FeatureData(replaced(batch.state.float_features, a, e))
            ctx.close(float(imp[j]), loss(nb)["loss"] - orig["loss"], "feature-importance", rtol=1e-3, atol=2e-4)
        # sensitivity: from the predictions actually made
        seen = []
        h = net.register_forward_hook(lambda m, i, o: seen.append((i, o)))
        try:
            sens = FeatureSensitivityEvaluator(tr, len(ss), [a for a, _ in ss]).evaluate(batch)["feature_sensitivity"]
        finally:
            h.remove()
        ctx.saw("sensitivity")
        ctx.require(len(sens) == len(ss), "sensitivity-per-feature", f"{len(sens)}")
        acts = [i[1].float_features for i, _ in seen]
        ctx.expect(all(torch.equal(i[0].float_features, batch.state.float_features) for i, _ in seen), "sensitivity-keeps-states", "")
        moved = [j for j, x in enumerate(acts) if not torch.equal(x, batch.action)]
        for x in acts:
            cols = lambda y: sorted(tuple(c) for c in y.permute(1, 0, 2).reshape(b, -1).tolist())  # noqa
            ctx.expect(cols(x) == cols(batch.action), "sensitivity-permutes-whole-rows", "actions changed by more than an exchange of rows")
        with torch.no_grad():
            mus = net(batch.state, rlt.FeatureData(batch.action)).mus
            other = net(batch.state, rlt.FeatureData(acts[moved[0]])).mus if moved else mus
        ctx.saw("shuffled", bool(moved))
        dev = (other - mus).abs()
        ctx.close(sens, [float(dev[..., a:e].sum(3).mean()) for a, e in ss], "feature-sensitivity", rtol=1e-3, atol=1e-5)
        ctx.expect(not same(snap, batch) and not same(before, dict(net.state_dict())), "world-evaluation-leaves-no-trace", f"{same(snap, batch)}")


class RewardNet(nn.Module):
    def __init__(self, d):
        super().__init__()
        self.l, self.drop = nn.Linear(d, 1), nn.Dropout(0.5)

    def forward(self, b):
        return rlt.RewardNetworkOutput(predicted_reward=self.drop(self.l(b.state.float_features)))


def reward(ctx, k):
    rng = ctx.sub(f"r{k}")
    ctx.seed_all(f"r{k}")
    kind = [LossFunction.MSE, LossFunction.L1Loss][k % 2]
    d = rng.randint(1, 3)
    net = RewardNet(d)
    ev = RewardNetEvaluator(RewardNetTrainer(net, optimizer=sgd(), loss_type=kind))
    best, kept = float("inf"), None
    for rnd in range(4):
        with ctx.case("reward", dict(kind=kind.name), distinct=(k, rnd)):
            with torch.no_grad():
                for p in net.parameters():
                    p.copy_(torch.randn_like(p) * 2)
            net.train(rng.random() < 0.6)
            mode, losses, rs, ps = net.training, [], [], []
            for _ in range(rng.randint(1, 3)):
                n = rng.choice([1, 3, 6])
                b = rlt.PreprocessedRankingInput.from_input(state=torch.randn(n, d), candidates=torch.randn(n, 2, 1), device=torch.device("cpu"), action=torch.tensor([[0, 1]] * n), slate_reward=torch.randn(n, 1), logged_propensities=torch.ones(n, 1))
                p = net.l(b.state.float_features).detach()
                e = (p - b.slate_reward).double()
                losses.append(float((e ** 2).mean() if kind == LossFunction.MSE else e.abs().mean()))
                rs.append(b.slate_reward.flatten()), ps.append(p.flatten())
                ev.evaluate(b)
                ctx.expect(net.training == mode, "reward-evaluation-keeps-mode", "")
            res = ev.evaluate_post_training()
            ctx.saw("reward_rounds")
            ctx.saw("seeing_training_mode", mode)
            ctx.close(float(res["loss"]), np.mean(losses), "reward-loss", rtol=1e-4, atol=1e-6)
            ctx.close(res["rewards"], torch.cat(rs), "reward-rewards")
            ctx.close(res["pred_rewards"], torch.cat(ps), "reward-predictions", rtol=1e-5, atol=1e-6)
            if float(res["loss"]) < best:
                best, kept = float(res["loss"]), snapshot(dict(net.state_dict()))
            ctx.close(float(ev.best_model_loss), best, "best-loss", rtol=1e-6)
            ctx.expect(not same(kept, dict(ev.best_model.state_dict())), "best-model", "")


def run(ctx):
    for name, f, q, t in [("listwise", listwise, 60, 1500), ("policy_gradient", policy_gradient, 36, 700), ("world", world, 45, 700), ("reward", reward, 12, 150), ("sequence", T08.s2r, 20, 150)]:
        with ctx.part(name):
            for k in range(ctx.n(q, t)):
                f(ctx, k)
