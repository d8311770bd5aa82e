"""T08: world-model and sequence-reward losses are the declared likelihoods."""
import vf.quiet  # noqa
import copy
import itertools

import numpy as np
import torch
import reagent.types as rlt
from reagent.core.tracker import Observer
from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator, FeatureSensitivityEvaluator, LossEvaluator
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNNMemoryPool, gmm_loss
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import MDNRNNTrainerParameters, Seq2RewardTrainerParameters
from reagent.training.utils import gen_permutations
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer, get_Q
from scipy.special import logsumexp

from vf.stats import multinomial_ok
from vf.train import magnitude, same, snapshot

RULE = (
    "Random mixture parameters, recurrent world models, sequence-reward networks and compressed models of every small size "
    "(one row, one step, one mixture included). The mixture likelihood, the weighted world-model loss, the sequence-reward "
    "target (discounted up to the valid length) and the remaining-steps loss are recomputed in float64; a prefix must be "
    "predicted as in the full run, hidden state must carry over, and best values must equal a maximum over every plan "
    "enumerated one at a time. Evaluators must report the loss of the rows given without changing the model, and the "
    "memory pool must hand out stored trajectories intact."
)
REQUIRED = {"gmm": 300, "gmm_single": 60, "wm_outputs": 60, "wm_loss": 60, "wm_one_step": 10, "s2r_prefix": 100, "plans_scored": 700, "s2r_loss": 60, "short_valid": 60, "compress": 30, "evaluators": 60, "pool_rows": 300, "pool_wrapped": 5, "importance": 20}


def ref_gmm(x, mu, sg, lp):
    x, mu, sg, lp = (np.asarray(v, dtype=np.float64) for v in (x, mu, sg, lp))
    d = -0.5 * ((x[..., None, :] - mu) / sg) ** 2 - np.log(sg) - 0.5 * np.log(2 * np.pi)
    return -logsumexp(lp + d.sum(-1), axis=-1)


def gmm(ctx, k):
    rng = ctx.sub(f"g{k}")
    ctx.seed_all(f"g{k}")
    lead = tuple(rng.choice([1, 1, 2, 3, 5]) for _ in range(rng.choice([1, 2, 2, 3])))
    gs, fs = rng.choice([1, 1, 2, 4]), rng.choice([1, 2, 5])
    if rng.random() < 0.1:
        lead, gs, fs = rng.choice([((70,), 3, 2), ((40, 3), 1, 4), ((2,), 12, 1), ((3, 2), 2, 25)])
    far = rng.choice([1.0, 1.0, 30.0])
    x = torch.randn(*lead, fs) * far
    mu, sg = torch.randn(*lead, gs, fs), torch.exp(torch.randn(*lead, gs, fs) * rng.choice([1.0, 1.0, 2.5]))
    lp = torch.log_softmax(torch.randn(*lead, gs) * 3, -1)
    with ctx.case("gmm", dict(lead=lead, gs=gs, fs=fs, far=far), distinct=k):
        ctx.saw("gmm")
        ctx.saw("gmm_single", 1 in lead)
        want = ref_gmm(x, mu, sg, lp)
        ctx.close(gmm_loss(x, mu, sg, lp, reduce=False), want, "mixture_negative_log_likelihood", rtol=1e-3, atol=1e-3)
        ctx.close(gmm_loss(x, mu, sg, lp), want.mean(), "mixture_loss_is_the_mean", rtol=1e-3, atol=1e-3)


def wm_batch(rng, s, b, sd, ad, one_hot=False, size=2.0):
    act = torch.randn(s, b, ad)
    if one_hot:
        act = torch.nn.functional.one_hot(torch.randint(ad, (s, b)), ad).float()
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(torch.randn(s, b, sd)), next_state=rlt.FeatureData(torch.randn(s, b, sd)), action=act, reward=torch.randn(s, b) * size,
                                  time_diff=torch.ones(s, b), not_terminal=(torch.rand(s, b) < 0.7).float(), step=None)


def world(ctx, k):
    rng = ctx.sub(f"w{k}")
    ctx.seed_all(f"w{k}")
    sd, ad, gs, nl = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2])
    s, b = rng.choice([1, 2, 4]), rng.choice([1, 2, 5])
    if rng.random() < 0.15:
        sd, ad, gs, s, b = rng.choice([(12, 2, 5, 3, 2), (20, 1, 1, 1, 3), (2, 12, 2, 2, 2), (3, 2, 8, 12, 2), (1, 2, 1, 2, 40)])
    sharp = rng.choice([1.0, 1.0, 20.0])  # confident about the end of an episode
    size = magnitude(rng, 2.0)
    net = MemoryNetwork(sd, ad, rng.choice([2, 5]), nl, gs)
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(2.0)
        for p in net.mdnrnn.gmm_linear.parameters():
            p[-1] *= sharp
    only = rng.random() < 0.3
    p = MDNRNNTrainerParameters(num_gaussians=gs, fit_only_one_next_step=only, reward_loss_weight=rng.choice([1.0, 0.0, 2.5, 40.0]), next_state_loss_weight=rng.choice([1.0, 0.5]),
                                not_terminal_loss_weight=rng.choice([1.0, 3.0]), learning_rate=0.01, minibatch_size=b)
    tr = MDNRNNTrainer(net, p)
    disc = rng.random() < 0.5
    batch = wm_batch(rng, s, b, sd, ad, disc, size)
    with ctx.case("world_model", dict(s=s, b=b, sd=sd, ad=ad, gs=gs, layers=nl, only=only), distinct=k):
        with torch.no_grad():
            o = net(batch.state, rlt.FeatureData(batch.action))
            ctx.saw("wm_outputs")
            ctx.require(tuple(o.mus.shape) == tuple(o.sigmas.shape) == (s, b, gs, sd) and tuple(o.logpi.shape) == (s, b, gs) and tuple(o.reward.shape) == tuple(o.not_terminal.shape) == (s, b), "world_model_shapes", "")
            ctx.expect(bool((o.sigmas > 0).all()), "spreads_positive", "")
            ctx.close(torch.exp(o.logpi).sum(-1), torch.ones(s, b), "mixture_weights_normalised")
            # causal, and the hidden state carries over
            for cut in range(1, s):
                h = net(rlt.FeatureData(batch.state.float_features[:cut]), rlt.FeatureData(batch.action[:cut]))
                ctx.close(h.mus, o.mus[:cut], "prefix_predicts_as_in_the_full_run")
                rest = net.mdnrnn(batch.action[cut:], batch.state.float_features[cut:], (h.last_step_lstm_hidden, h.last_step_lstm_cell))
                for a, w in zip(rest[:5], (o.mus, o.sigmas, o.logpi, o.reward, o.not_terminal)):
                    ctx.close(a, w[cut:], "hidden_state_carries_over", rtol=1e-3)
            if b > 1:
                i = rng.randrange(b)
                one = net(rlt.FeatureData(batch.state.float_features[:, i : i + 1]), rlt.FeatureData(batch.action[:, i : i + 1]))
                ctx.close(one.mus, o.mus[:, i : i + 1], "rows_predicted_independently", rtol=1e-3)
        snap = snapshot(batch)
        sl = slice(s - 1, s) if only else slice(0, s)
        ctx.saw("wm_one_step", only)
        num = lambda t: t.detach().double().numpy()
        g = ref_gmm(num(batch.next_state.float_features[sl]), num(o.mus[sl]), num(o.sigmas[sl]), num(o.logpi[sl])).mean() * p.next_state_loss_weight
        z, y = num(o.not_terminal[sl]), num(batch.not_terminal[sl])
        bce = (np.maximum(z, 0) - z * y + np.log1p(np.exp(-np.abs(z)))).mean() * p.not_terminal_loss_weight
        mse = ((num(o.reward[sl]) - num(batch.reward[sl])) ** 2).mean() * p.reward_loss_weight
        for dim in (sd, None):
            L = tr.get_loss(batch, state_dim=dim)
            ctx.saw("wm_loss")
            ctx.close(L["gmm"], g, "world_model_state_loss", rtol=1e-3, atol=1e-4)
            ctx.close(L["bce"], bce, "world_model_terminal_loss", rtol=1e-3, atol=1e-4)
            ctx.close(L["mse"], mse, "world_model_reward_loss", rtol=1e-3, atol=1e-4)
            ctx.close(L["loss"], (g / (dim + 2) if dim else g) + bce + mse, "world_model_total_loss", rtol=1e-3, atol=1e-4)
        # evaluators report the same loss and leave the model alone
        before = snapshot(dict(net.state_dict()))
        ev = LossEvaluator(tr, sd).evaluate(batch)
        ctx.saw("evaluators")
        ctx.close(ev["loss"], g / (sd + 2) + bce + mse, "loss_evaluator", rtol=1e-3, atol=1e-4)
        if disc or ad >= 1:
            imp = FeatureImportanceEvaluator(tr, discrete_action=disc, state_feature_num=sd, action_feature_num=ad, sorted_action_feature_start_indices=list(range(ad)), sorted_state_feature_start_indices=list(range(sd))).evaluate(batch)["feature_loss_increase"]
            ctx.require(len(imp) == ad + sd, "importance_per_feature", "")
            ctx.saw("importance")
            for j in range(ad + sd):
                nb = copy.deepcopy(batch)
                if j < ad:
                    if disc:
                        nb.action[:] = 0
                        nb.action[:, :, j] = 1
                    else:
                        nb.action[:, :, j] = batch.action[:, :, j].mean()
                else:
                    nb.state.float_features[:, :, j - ad] = batch.state.float_features[:, :, j - ad].mean()
                want = float(tr.get_loss(nb, state_dim=sd)["loss"]) - float(tr.get_loss(batch, state_dim=sd)["loss"])
                ctx.close(float(imp[j]), want, "feature_importance_is_loss_increase", rtol=1e-3, atol=1e-4)
        sens = FeatureSensitivityEvaluator(tr, sd, list(range(sd))).evaluate(batch)["feature_sensitivity"]
        ctx.expect(len(sens) == sd and bool((sens >= 0).all()), "sensitivity_nonnegative", "")
        same_act = copy.deepcopy(batch)
        same_act.action[:] = batch.action[:1, :1]
        ctx.close(FeatureSensitivityEvaluator(tr, sd, list(range(sd))).evaluate(same_act)["feature_sensitivity"], np.zeros(sd), "no_sensitivity_without_action_change", atol=1e-5)
        ctx.expect(not same(snap, batch), "world_model_batch_untouched", f"{same(snap, batch)}")
        ctx.expect(not same(before, dict(net.state_dict())), "evaluation_leaves_the_model", "")
        # training takes one Adam step along the loss
        ref = copy.deepcopy(tr)
        got = tr.train(batch)
        ref.memory_network.mdnrnn.train()
        opt = torch.optim.Adam(ref.memory_network.mdnrnn.parameters(), lr=0.01)
        opt.zero_grad()
        ref.get_loss(batch, sd)["loss"].backward()
        opt.step()
        ctx.close(got["loss"], g / (sd + 2) + bce + mse, "trained_loss_reported", rtol=1e-3, atol=1e-4)
        for a, w in zip(net.parameters(), ref.memory_network.parameters()):
            ctx.close(a, w, "world_model_step", rtol=1e-3, atol=1e-4)


class Rec(Observer):
    def __init__(self, keys):
        super().__init__(keys)
        self.got = {}

    def update(self, key, value):
        self.got.setdefault(key, []).append(value)


def s2r(ctx, k):
    rng = ctx.sub(f"s{k}")
    ctx.seed_all(f"s{k}")
    sd, na, T, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 5])
    if rng.random() < 0.15:
        na, T, b = rng.choice([(1, 9, 2), (2, 7, 1), (6, 3, 2), (11, 2, 2), (3, 5, 1), (1, 1, 17), (2, 2, 17)])
    size = magnitude(rng, 2.0)
    net = Seq2RewardNetwork(sd, na, rng.choice([2, 4]), rng.choice([1, 2]))
    with torch.no_grad():
        for q in net.parameters():
            q.mul_(2.0)
        for q in net.lstm_linear.parameters() if hasattr(net, "lstm_linear") else []:
            q.mul_(rng.choice([1.0, 1.0, 50.0]))
    gamma = rng.choice([1.0, 0.9, 0.0, 0.99, 0.3])
    p = Seq2RewardTrainerParameters(multi_steps=T, action_names=[str(i) for i in range(na)], gamma=gamma, view_q_value=rng.random() < 0.7, step_predict_net_size=4)
    tr = Seq2RewardTrainer(net, p)
    batch = wm_batch(rng, T, b, sd, na, True, size)
    valid = torch.tensor([[rng.randint(1, T)] for _ in range(b)])
    batch.valid_next_seq_len = valid
    with ctx.case("seq2reward", dict(sd=sd, na=na, T=T, b=b, gamma=gamma), distinct=k):
        snap = snapshot(batch)
        pred = np.zeros(b)
        with torch.no_grad():
            full = net(batch.state, rlt.FeatureData(batch.action), valid.flatten()).acc_reward
            ctx.require(tuple(full.shape) == (b, 1), "sequence_reward_shape", f"{tuple(full.shape)}")
            for i in range(b):
                v = int(valid[i])
                ctx.saw("s2r_prefix")
                ctx.saw("short_valid", v < T)
                one = net(rlt.FeatureData(batch.state.float_features[:v, i : i + 1]), rlt.FeatureData(batch.action[:v, i : i + 1])).acc_reward
                pred[i] = float(one)
                ctx.close(full[i, 0], one[0, 0], "prefix_predicts_as_truncated_sequence", rtol=1e-3)
            # plans
            perms = gen_permutations(T, na)
            plans = list(itertools.product(range(na), repeat=T))
            ctx.require(tuple(perms.shape) == (T, len(plans), na), "every_plan_generated", f"{tuple(perms.shape)}")
            ctx.expect({tuple(perms[:, j].argmax(-1).tolist()) for j in range(len(plans))} == set(plans) and bool((perms.sum(-1) == 1).all()), "every_plan_generated", "plans missing")
            q = get_Q(net, batch.state.float_features[0], perms)
            ctx.require(tuple(q.shape) == (b, na), "best_value_shape", f"{tuple(q.shape)}")
            best = np.full((b, na), -np.inf)
            for i in range(b):
                for pl in plans:
                    ctx.saw("plans_scored")
                    a = torch.nn.functional.one_hot(torch.tensor(pl), na).float().unsqueeze(1)
                    v = float(net(rlt.FeatureData(batch.state.float_features[:1, i : i + 1]), rlt.FeatureData(a)).acc_reward)
                    best[i, pl[0]] = max(best[i, pl[0]], v)
            ctx.close(q, best, "best_value_is_maximum_over_plans", rtol=1e-3)
        tgt = np.array([sum(gamma ** t * float(batch.reward[t, i]) for t in range(int(valid[i]))) for i in range(b)])
        logits = tr.step_predict_network(batch.state.float_features[0]).detach().double().numpy()
        ent = np.mean([logsumexp(logits[i]) - logits[i, int(valid[i]) - 1] for i in range(b)])
        mse, se = tr.get_loss(batch)
        ctx.saw("s2r_loss")
        ctx.close(mse, ((pred - tgt) ** 2).mean(), "sequence_reward_loss", rtol=1e-3, atol=1e-4)
        ctx.close(se, ent, "remaining_steps_loss", rtol=1e-3, atol=1e-4)
        # evaluation reports what it saw, without learning
        before = snapshot(dict(net.state_dict()))
        ev = Seq2RewardEvaluator(tr)
        rec = Rec(["mse_loss", "q_values", "action_distribution", "step_entropy_loss"])
        ev.add_observer(rec)
        net.train(rng.random() < 0.5)
        mode = net.training
        r = ev.evaluate(batch)
        ctx.saw("evaluators")
        dist = np.bincount(best.argmax(1), minlength=na) / b
        for got, want, m in ((r[0], ((pred - tgt) ** 2).mean(), "loss"), (r[1], ent, "entropy"), (r[2], best.mean(0), "values"), (r[3], dist, "actions"), (float(rec.got["mse_loss"][-1]), ((pred - tgt) ** 2).mean(), "reported_loss"), (rec.got["q_values"][-1], best.mean(0)[None], "reported_values"), (rec.got["action_distribution"][-1], dist[None], "reported_actions")):
            ctx.close(got, want, "sequence_reward_evaluation_" + m, rtol=1e-3, atol=1e-4)
        ctx.expect(net.training == mode and not same(before, dict(net.state_dict())), "evaluation_leaves_the_model", "")
        # the compressed model regresses onto the best values
        cm = FullyConnectedNetwork([sd, 4, na], ["relu", "linear"])
        ct = CompressModelTrainer(cm, net, p)
        out = cm(batch.state.float_features[0]).detach().double().numpy()
        loss, acc = ct.get_loss(batch)
        ctx.saw("compress")
        ctx.close(loss, ((out - best) ** 2).mean(), "compressed_model_loss", rtol=1e-3, atol=1e-4)
        ctx.close(acc, (out.argmax(1) == best.argmax(1)).mean(), "compressed_model_accuracy")
        before = snapshot(dict(net.state_dict()))
        er = CompressModelEvaluator(ct).evaluate(batch)
        ctx.saw("evaluators")
        ctx.close(er[0], ((out - best) ** 2).mean(), "compressed_evaluation_loss", rtol=1e-3, atol=1e-4)
        ctx.close(er[2], dist, "compressed_evaluation_actions")
        ct.train(batch)
        ctx.expect(not same(before, dict(net.state_dict())), "compression_leaves_the_teacher", "")
        l, s, qv = tr.train(batch)
        ctx.close([l, s], [((pred - tgt) ** 2).mean(), ent], "sequence_reward_training_reports", rtol=1e-3, atol=1e-4)
        ctx.expect(not same(snap, batch), "sequence_reward_batch_untouched", "")


def pool(ctx, k):
    rng = ctx.sub(f"p{k}")
    ctx.seed_all(f"p{k}")
    cap, n, T, sd, ad = rng.choice([3, 8]), rng.choice([1, 2, 6, 20]), rng.choice([1, 3, 8]), 2, 3
    if k % 2:
        n = rng.choice([cap + 1, 2 * cap, 50])
    pl = MDNRNNMemoryPool(cap)
    rows = []
    with ctx.case("memory_pool", dict(cap=cap, n=n, T=T), distinct=k):
        for i in range(n):
            row = (torch.full((T, sd), float(i)) + torch.rand(T, sd) / 2, torch.rand(T, ad) + i, torch.rand(T, sd) + i, torch.rand(T) + i, torch.ones(T))
            rows.append(row)
            pl.insert_into_memory(*row)
            ctx.expect(pl.memory_size == min(cap, i + 1), "pool_size", "")
        ctx.saw("pool_wrapped", n > cap)
        m = 40
        s = pl.sample_memories(m)
        ctx.require(tuple(s.state.float_features.shape) == (T, m, sd), "pool_shape", "")
        seen = [0] * n
        for j in range(m):
            ctx.saw("pool_rows")
            i = int(s.state.float_features[0, j, 0])
            seen[i] += 1
            ctx.expect(i >= n - cap, "pool_forgets_oldest", f"trajectory {i} of {n} with capacity {cap}")
            got = (s.state.float_features[:, j], s.action[:, j], s.next_state.float_features[:, j], s.reward[:, j], s.not_terminal[:, j])
            ctx.expect(all(torch.equal(a, w) for a, w in zip(got, rows[i])), "pool_rows_intact", f"trajectory {i}")
        live = min(n, cap)
        ok, why = multinomial_ok(seen[n - live :], [1 / live] * live)
        ctx.expect(ok, "pool_samples_uniformly", why)


def run(ctx):
    for name, f, q in (("gmm", gmm, 400), ("world", world, 60), ("s2r", s2r, 60), ("pool", pool, 20)):
        with ctx.part(name):
            for k in range(ctx.n(q, q * 8)):
                f(ctx, k)
