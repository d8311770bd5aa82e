"""T10: reward-model and imitation learners, and loss reporting, observe what was trained."""
import vf.quiet  # noqa
import copy
import types as pytypes

import numpy as np
import torch
import reagent.types as rlt
from torch.optim.optimizer import register_optimizer_step_pre_hook
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.tensorboardX import SummaryWriterContext
from reagent.training.imitator_training import ImitatorTrainer, get_valid_actions_from_imitator
from reagent.training.loss_reporter import LossReporter
from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer

from vf.train import Mlp, masks, one_hot, same, snapshot

RULE = (
    "Reward models are trained on random ranking and plain batches with each loss type and with or without an ignore "
    "threshold; imitators with each accumulation interval. Losses are recomputed in numpy and the gradient reaching each "
    "optimizer step is compared with the reference mean. Off-line evaluation must report the mean batch loss, the rows it "
    "was given and the best model so far without changing the model. A long random history of reports is mirrored by a "
    "reference reporter and every published aggregate (losses, means, deviations, counts, distributions, running rewards) "
    "is compared after each flush, with the automatic flush at the interval included."
)
REQUIRED = {"reward_batches": 150, "ignored_rows": 30, "reward_steps": 150, "offline_eval": 30, "best_kept": 10, "imitator_batches": 80, "imitator_interval": 20, "imitator_steps": 40, "flushes": 80, "auto_flush": 10, "reports": 500, "valid_actions": 60}


class RewardNet(torch.nn.Module):
    def __init__(self, d, bce):
        super().__init__()
        self.m, self.bce = Mlp(d, 1), bce

    def forward(self, batch):
        x = self.m(batch.state.float_features)
        return rlt.RewardNetworkOutput(predicted_reward=torch.sigmoid(x) if self.bce else x)


class Watch:
    def __init__(self):
        self.steps = []

    def __enter__(self):
        self.h = register_optimizer_step_pre_hook(lambda o, a, k: self.steps.append([p.grad.detach().clone() for g in o.param_groups for p in g["params"]]))
        return self

    def __exit__(self, *a):
        self.h.remove()


def sgd(lr=0.05):
    return Optimizer__Union(SGD=classes["SGD"](lr=lr))


def np_loss(kind, p, t):
    d = p - t
    if kind == LossFunction.MSE:
        return d ** 2
    if kind == LossFunction.L1Loss:
        return np.abs(d)
    if kind == LossFunction.SmoothL1Loss:
        return np.where(np.abs(d) < 1, 0.5 * d ** 2, np.abs(d) - 0.5)
    return -(t * np.log(p) + (1 - t) * np.log(1 - p))


def torch_loss(kind, p, t):
    d = p - t
    if kind == LossFunction.MSE:
        return d ** 2
    if kind == LossFunction.L1Loss:
        return d.abs()
    if kind == LossFunction.SmoothL1Loss:
        return torch.where(d.abs() < 1, 0.5 * d ** 2, d.abs() - 0.5)
    return -(t * torch.log(p) + (1 - t) * torch.log(1 - p))


def rbatch(rng, n, d, ranking, bce):
    r = torch.rand(n, 1) if bce else torch.randn(n, 1) * 2
    if ranking:
        return rlt.PreprocessedRankingInput.from_input(state=torch.randn(n, d), candidates=torch.randn(n, 2, 2), device=torch.device("cpu"), action=torch.tensor([[1, 0]] * n), slate_reward=r), r
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(torch.randn(n, d)), next_state=rlt.FeatureData(torch.randn(n, d)), reward=r, action=torch.randn(n, 1), time_diff=torch.ones(n, 1), not_terminal=torch.ones(n, 1), step=None), r


def close_grads(ctx, got, want, mech):
    g, w = torch.cat([x.reshape(-1) for x in got]), torch.cat([x.reshape(-1) for x in want])
    ctx.close(g, w, mech, rtol=2e-3, atol=1e-5)


def reward(ctx, k):
    rng = ctx.sub(f"r{k}")
    ctx.seed_all(f"r{k}")
    kind = list(LossFunction)[k % 4]
    bce = kind == LossFunction.BCELoss
    d, ranking = rng.randint(1, 3), rng.random() < 0.5
    thr = rng.choice([None, None, 0.5, 1.0])
    net = RewardNet(d, bce)
    tr = RewardNetTrainer(net, optimizer=sgd(), loss_type=kind, reward_ignore_threshold=thr)
    ev = RewardNetEvaluator(tr)
    best = [float("inf"), None]
    for m in range(6):
        n = rng.choice([1, 2, 5, 9])
        b, r = rbatch(rng, n, d, ranking, bce)
        if thr is not None:
            r[rng.randrange(n)] = thr if rng.random() < 0.5 else 0.1  # never all ignored; the boundary counts
        with ctx.case("reward", dict(kind=kind.name, n=n, thr=thr, ranking=ranking), distinct=(k, m)):
            snap = snapshot(b)
            ref = copy.deepcopy(net)
            p = ref(b).predicted_reward
            keep = torch.ones(n, 1, dtype=torch.bool) if thr is None else r <= thr
            ctx.saw("ignored_rows", int((~keep).sum()))
            want = torch_loss(kind, p, r)[keep].mean()
            with Watch() as w:
                got = tr.train(b)
            ctx.saw("reward_batches")
            ctx.saw("reward_steps", len(w.steps))
            ctx.close(float(got), np_loss(kind, p.detach().double().numpy(), r.double().numpy())[keep.numpy()].mean(), "reward_model_loss", rtol=1e-3)
            ctx.require(len(w.steps) == 1, "one_step_per_batch", "")
            close_grads(ctx, w.steps[0], torch.autograd.grad(want, list(ref.parameters())), "reward_model_gradient")
            ctx.expect(not same(snap, b), "reward_batch_untouched", "")
        if m % 2:
            with ctx.case("offline", dict(kind=kind.name, thr=thr), distinct=(k, m)):
                losses, rs, ps = [], [], []
                before, mode = snapshot(dict(net.state_dict())), rng.random() < 0.5
                net.train(mode)
                for _ in range(rng.randint(1, 4)):
                    eb, er = rbatch(rng, rng.choice([1, 3, 6]), d, ranking, bce)
                    p = net(eb).predicted_reward.detach()
                    losses.append(np_loss(kind, p.double().numpy(), er.double().numpy()).mean())
                    rs.append(er.flatten()), ps.append(p.flatten())
                    ev.evaluate(eb)
                res = ev.evaluate_post_training()
                ctx.saw("offline_eval")
                ctx.close(float(res["loss"]), np.mean(losses), "offline_loss", rtol=1e-3)
                ctx.close(res["rewards"], torch.cat(rs), "offline_rewards")
                ctx.close(res["pred_rewards"], torch.cat(ps), "offline_predictions")
                ctx.expect(net.training == mode and not same(before, dict(net.state_dict())), "offline_evaluation_leaves_the_model", "")
                if float(res["loss"]) < best[0]:
                    best = [float(res["loss"]), before]
                else:
                    ctx.saw("best_kept")
                ctx.close(float(ev.best_model_loss), best[0], "best_loss_kept", rtol=1e-6)
                ctx.expect(not same(best[1], dict(ev.best_model.state_dict())), "best_model_kept", "the kept model is not the one with the lowest loss")


def imitator(ctx, k):
    rng = ctx.sub(f"i{k}")
    ctx.seed_all(f"i{k}")
    d, a = rng.randint(1, 3), rng.randint(2, 4)
    mps = rng.choice([1, 1, 2, 3])
    net = Mlp(d, a)
    tr = ImitatorTrainer(net, optimizer=sgd(), minibatches_per_step=mps)
    acc, count = None, 0
    for m in range(6):
        n = rng.choice([1, 2, 7])
        logged = [rng.randrange(a) for _ in range(n)]
        b = pytypes.SimpleNamespace(training_input=pytypes.SimpleNamespace(state=rlt.FeatureData(torch.randn(n, d)), action=one_hot(logged, a)))
        train = rng.random() < 0.8
        with ctx.case("imitator", dict(n=n, mps=mps, train=train), distinct=(k, m)):
            ref = copy.deepcopy(net)
            lp = torch.log_softmax(ref(b.training_input.state.float_features), 1)
            loss = torch.stack([-lp[i, logged[i]] for i in range(n)]).mean()
            with Watch() as w:
                got = tr.train(b, train=train)
            ctx.saw("imitator_batches")
            hits = np.mean([int(lp[i].argmax()) == logged[i] for i in range(n)])
            ctx.expect(abs(got - hits) <= 6e-4, "imitator_accuracy", f"{got} want {hits}")
            if train:
                count += 1
                g = torch.autograd.grad(loss, list(ref.parameters()))
                acc = g if acc is None else [x + y for x, y in zip(acc, g)]
            if train and count % mps == 0:
                ctx.saw("imitator_interval", mps > 1)
                ctx.saw("imitator_steps")
                ctx.require(len(w.steps) == 1, "imitator_steps_once_per_interval", f"{len(w.steps)} steps after {count} batches, interval {mps}")
                close_grads(ctx, w.steps[0], [x / mps for x in acc], "imitator_gradient_is_interval_mean")
                acc = None
            else:
                ctx.expect(not w.steps, "imitator_steps_once_per_interval", f"{len(w.steps)} steps after {count} batches, interval {mps}")
    with ctx.case("valid_actions", None, distinct=k):
        x = torch.randn(6, d)
        thr = rng.choice([0.0, 0.3, 0.9, 1.0])
        use = rng.random() < 0.5
        pr = torch.softmax(net(x).detach(), 1)
        got = get_valid_actions_from_imitator(net if use else (lambda s: torch.softmax(net(torch.tensor(s) if not torch.is_tensor(s) else s), 1).detach().numpy()), rlt.FeatureData(x), thr)
        for i in range(6):
            for j in range(a):
                ratio = float(pr[i, j] / pr[i].max())
                if abs(ratio - thr) > 1e-5 or ratio == 1.0:
                    ctx.saw("valid_actions")
                    ctx.expect(bool(got[i, j]) == (ratio >= thr), "imitator_drops_unlikely_actions", f"relative probability {ratio} threshold {thr} kept {float(got[i, j])}")


def reporter(ctx, k):
    rng = ctx.sub(f"rep{k}")
    ctx.seed_all(f"rep{k}")
    SummaryWriterContext._reset_globals()
    names = rng.choice([None, ["a", "b"], ["x", "y", "z"]])
    rep = LossReporter(names)
    interval = rng.choice([3, 5, 100])
    rep.loss_report_interval = interval
    have = {f: rng.random() < 0.7 for f in ("reward_loss", "imitator_loss", "logged_actions", "logged_rewards", "model_values", "model_values_on_logged_actions", "model_action_idxs")}
    A = len(names) if names else 1
    ref = dict(td=[], rl=[], im=[], q=[], rewards=[], logged=np.zeros(A), model=np.zeros(A), counts=[], means=[], stds=[], distr=[])
    window = []

    def flush_ref():
        if not window:
            return
        cat = lambda f: np.concatenate([np.asarray(x[f], dtype=np.float64) for x in window])
        ref["td"].append(cat("td_loss").mean())
        if have["reward_loss"]:
            ref["rl"].append(cat("reward_loss").mean())
        if have["imitator_loss"]:
            ref["im"].append(cat("imitator_loss").mean())
        if have["logged_rewards"]:
            ref["rewards"].extend(cat("logged_rewards").reshape(-1).tolist())
        if have["model_values"] and names:
            ref["means"].append(cat("model_values").mean(0))
            ref["stds"].append(cat("model_values").std(0, ddof=1))
        if have["model_values_on_logged_actions"]:
            ref["q"].append(cat("model_values_on_logged_actions").mean())
        if have["logged_actions"] and have["model_action_idxs"]:
            l = np.bincount(cat("logged_actions").astype(int).reshape(-1), minlength=A)[:A]
            mo = np.bincount(cat("model_action_idxs").astype(int).reshape(-1), minlength=A)[:A]
            if names:
                ref["logged"] += l
                ref["model"] += mo
                ref["counts"].append(mo)
                ref["distr"].append(mo / mo.sum())
        window.clear()
        ctx.saw("flushes")

    with ctx.case("reporter", dict(names=names, interval=interval, have=have), distinct=k):
        for step in range(rng.randint(8, 25)):
            n = rng.choice([1, 2, 5])
            r = dict(td_loss=rng.choice([torch.rand(1), torch.rand(n, 1).reshape(-1), torch.tensor(rng.random())]))
            if have["reward_loss"]:
                r["reward_loss"] = rng.choice([torch.rand(()), rng.random()])
            if have["imitator_loss"]:
                r["imitator_loss"] = torch.rand(1)
            if have["logged_actions"]:
                r["logged_actions"] = torch.randint(A, (n, 1))
            if have["logged_rewards"]:
                r["logged_rewards"] = torch.randn(n, 1)
            if have["model_values"]:
                r["model_values"] = torch.randn(n, A)
            if have["model_values_on_logged_actions"]:
                r["model_values_on_logged_actions"] = torch.randn(n, 1)
            if have["model_action_idxs"]:
                r["model_action_idxs"] = torch.randint(A, (n, 1))
            window.append({f: np.atleast_1d(v.numpy() if torch.is_tensor(v) else v) for f, v in r.items()})
            if step == 0 and n == 1:
                window[-1] = window[-1]
            ctx.saw("reports")
            rep.report(**r)
            if len(window) >= interval:
                ctx.saw("auto_flush")
                flush_ref()
            elif rng.random() < 0.15:
                rep.flush()
                flush_ref()
            ctx.require(rep.num_batches == len(ref["td"]), "report_windows", f"{rep.num_batches} windows, expected {len(ref['td'])}")
        rep.flush()
        flush_ref()
        rep.flush()  # nothing to report: no new window
        ctx.require(rep.num_batches == len(ref["td"]), "empty_flush_reports_nothing", "")
        ctx.close(rep.td_loss, ref["td"], "reported_td_loss")
        ctx.close(rep.reward_loss, ref["rl"], "reported_reward_loss")
        ctx.close(rep.imitator_loss, ref["im"], "reported_imitator_loss")
        ctx.close(rep.logged_action_q_value, ref["q"], "reported_logged_value")
        ctx.close(list(rep.get_recent_rewards()), ref["rewards"], "running_rewards")
        if ref["td"]:
            ctx.close(rep.get_recent_td_loss(), np.mean(ref["td"][-LossReporter.RECENT_WINDOW_SIZE :]), "recent_td_loss")
        c = rng.randint(0, len(ref["td"]))
        ctx.close(rep.get_td_loss_after_n(c), ref["td"][c:], "td_loss_after_n")
        if names:
            for j, nm in enumerate(names):
                ctx.close(dict(rep.model_values.items())[nm], [x[j] for x in ref["means"]], "reported_value_means", rtol=1e-3)
                ctx.close(dict(rep.model_value_stds.items())[nm], [x[j] for x in ref["stds"]], "reported_value_deviations", rtol=1e-3)
                ctx.close(dict(rep.model_action_counts.items())[nm], [x[j] for x in ref["counts"]], "reported_action_counts")
                ctx.close(dict(rep.model_action_distr.items())[nm], [x[j] for x in ref["distr"]], "reported_action_distribution")
            ctx.close([rep.logged_action_counts[x] for x in names], ref["logged"], "logged_action_counts")
            ctx.close([rep.model_action_counts_cumulative[x] for x in names], ref["model"], "model_action_counts")
            if ref["logged"].sum():
                ctx.close([rep.get_logged_action_distribution()[x] for x in names], ref["logged"] / ref["logged"].sum(), "logged_action_distribution")
                ctx.close([rep.get_model_action_distribution()[x] for x in names], ref["model"] / ref["model"].sum(), "model_action_distribution")
    SummaryWriterContext._reset_globals()


def run(ctx):
    for name, f, q in (("reward", reward, 48), ("imitator", imitator, 40), ("reporter", reporter, 50)):
        with ctx.part(name):
            for k in range(ctx.n(q, q * 8)):
                f(ctx, k)
