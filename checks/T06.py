"""T06: ranking learners weight sequences as declared."""
import vf.quiet  # noqa
import copy

import numpy as np
import torch
import torch.nn.functional as F
import reagent.types as rlt
from torch.optim.optimizer import register_optimizer_step_pre_hook
from reagent.core.tracker import Observer
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.seq2slate import BaselineNet
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.parameters import Seq2SlateParameters
from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, LearningMethod, RewardClamp, SimulationParameters
from reagent.training.ranking.helper import ips_clamp
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer, swap_dist
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer

from vf.slates import ARCHS, RecNet, make_net, orders, rebuild, slate_batch
from vf.train import magnitude, same, snapshot

RULE = (
    "The five ranking learners train real rankers for several batches with plain SGD; the gradient reaching every optimizer "
    "step is captured and compared, with the published statistics, against a reference that recomputes each row alone: "
    "weight = current / logged propensity, clamped as configured, times reward minus (pre-update) baseline, averaged over "
    "rows, accumulated over the policy-gradient interval. Simulated slates are checked against recording reward networks "
    "(weights, powers, clamp, distance penalty) and their weights must be one. The clamp is checked pointwise."
)
REQUIRED = {"clamped": 2000, "rl_batches": 80, "rl_steps": 30, "rl_baseline": 30, "rl_warmup": 5, "rl_interval": 15, "dr_batches": 30, "dr_onpolicy": 8, "tf_batches": 30, "attn_batches": 20, "sim_batches": 20, "sim_penalty": 5, "sim_clamp": 5, "single_row": 20, "swap_dist": 100, "clamp_active": 20}
ASSUMPTIONS = ["ratios exactly at the aggressive-clamp threshold are not sampled: the code and its comment differ there"]

SEQ, SYM = Seq2SlateMode.PER_SEQ_LOG_PROB_MODE, Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE


def sgd(lr):
    return Optimizer__Union(SGD=classes["SGD"](lr=lr))


class Watch:
    """Gradients seen by every optimizer step, keyed by the parameters' owner."""

    def __init__(self, nets):
        self.nets, self.steps = nets, []

    def __enter__(self):
        def pre(opt, args, kwargs):
            ids = {id(p) for g in opt.param_groups for p in g["params"]}
            for name, net in self.nets.items():
                if net is not None and ids == {id(p) for p in net.parameters()}:
                    self.steps.append((name, [torch.zeros_like(p) if p.grad is None else p.grad.detach().clone() for p in net.parameters()]))
                    return
            self.steps.append(("?", None))

        self.h = register_optimizer_step_pre_hook(pre)
        return self

    def __exit__(self, *a):
        self.h.remove()

    def take(self, name):
        r = [g for n, g in self.steps if n == name]
        self.steps = [(n, g) for n, g in self.steps if n != name]
        return r


class Rec(Observer):
    def __init__(self, keys):
        super().__init__(keys)
        self.got = {}

    def update(self, key, value):
        self.got.setdefault(key, []).append(value)


def grads_of(loss, net):
    g = torch.autograd.grad(loss, list(net.parameters()), allow_unused=True)
    return [torch.zeros_like(p) if x is None else x for x, p in zip(g, net.parameters())]


def grads_close(ctx, got, want, mech, size=0.0):
    """size: the largest term that may have cancelled"""
    g, w = torch.cat([x.reshape(-1) for x in got]), torch.cat([x.reshape(-1) for x in want])
    scale = max(1.0, float(w.abs().max()), size)
    return ctx.close(g / scale, w / scale, mech, rtol=2e-3, atol=3e-4)


def ref_clamp(r, c):
    if c is None:
        return r
    if c.clamp_method == IPSClampMethod.UNIVERSAL:
        return torch.clamp(r, max=c.clamp_max)
    return torch.where(r > c.clamp_max, torch.zeros_like(r), r)


def rand_clamp(rng):
    return rng.choice([None, IPSClamp(IPSClampMethod.UNIVERSAL, rng.choice([0.3, 1.1, 3.0, 50.0])), IPSClamp(IPSClampMethod.AGGRESSIVE, rng.choice([0.3, 1.1, 3.0, 50.0]))])


def clamps(ctx):
    for k in range(ctx.n(40, 200)):
        rng = ctx.sub(f"clamp{k}")
        c = rand_clamp(rng)
        x = torch.tensor([[rng.choice([0.0, rng.random(), rng.random() * 10, rng.random() * 1e-3, 1e6])] for _ in range(120)], requires_grad=True)
        with ctx.case("clamp", str(c), distinct=k):
            before = x.detach().clone()
            y = ips_clamp(x, c)
            ctx.saw("clamped", 120)
            ctx.close(y, ref_clamp(x.detach(), c), "importance_weight_clamp")
            ctx.expect(torch.equal(x.detach(), before), "clamp_leaves_weights_untouched", "")
            (g,) = torch.autograd.grad(y.sum(), x)
            if c is not None:
                ctx.expect(bool((g[x > c.clamp_max] == 0).all()), "clamped_weight_carries_no_gradient", "")
                ctx.expect(bool((g[(x < c.clamp_max) & (x > 0)] == 1).all()), "unclamped_weight_keeps_gradient", "")
            else:
                ctx.expect(bool((g == 1).all()), "unclamped_weight_keeps_gradient", "")


def small_net(ctx, rng, arch, cls=None):
    src = rng.choice([1, 2, 3, 4, 5, 5, 8])
    tgt = rng.randint(1, src)
    kw = {} if cls is None else {"cls": cls}
    return make_net(rng, arch, src, tgt, **kw)


def rl(ctx, k):
    rng = ctx.sub(f"rl{k}")
    ctx.seed_all(f"rl{k}")
    net = small_net(ctx, rng, ARCHS[k % 2])
    baseline = BaselineNet(net.state_dim, 4, rng.choice([1, 2])) if rng.random() < 0.6 else None
    warm = rng.choice([0, 1, 3, 4, 6]) if baseline is not None else 0
    interval = rng.choice([1, 1, 2, 3, 6])
    size = magnitude(rng)
    c = rand_clamp(rng)
    low = rng.random() < 0.2  # small logged propensities
    lr = rng.choice([0.0, 0.05]) if size <= 10 and not low and net.max_src_seq_len < 6 else 0.0  # a large step, or many, saturates the ranker
    t = Seq2SlateTrainer(net, minibatch_size=4, parameters=Seq2SlateParameters(on_policy=rng.random() < 0.5, ips_clamp=c), baseline_net=baseline, baseline_warmup_num_batches=warm,
                         policy_optimizer=sgd(lr), baseline_optimizer=sgd(0.1 if size <= 10 else 1e-4), policy_gradient_interval=interval)
    rec = Rec(["train_ips_score", "train_clamped_ips_score", "train_baseline_loss", "train_ips_ratio", "train_clamped_ips_ratio", "train_advantages", "train_logged_slate_rank_probs"])
    t.add_observer(rec)
    acc, terms = None, 0.0
    with Watch({"policy": net, "baseline": baseline}) as w:
        for m in range(1, 8 if interval < 5 else 13):
            n = rng.choice([1, 2, 3, 6, 6, 20])
            with ctx.case("rl", dict(n=n, m=m, warm=warm, interval=interval, clamp=str(c), baseline=baseline is not None), distinct=(k, m)):
                ctx.saw("rl_batches")
                ctx.saw("single_row", n == 1)
                batch = slate_batch(rng, net, n, reward=torch.randn(n, 1) * size, propensity=(torch.rand(n, 1) * 0.9 + 0.05) * (1e-3 if low else 1))
                if rng.random() < 0.3:  # on-policy propensities
                    with torch.no_grad():
                        batch = rebuild(batch, propensity=torch.exp(net(batch, mode=SEQ).log_probs))
                snap = snapshot(batch)
                pol, base = copy.deepcopy(net), copy.deepcopy(baseline)
                # per-row reference
                rows, ratios, crat, adv, bl, braw = [], [], [], [], [], []
                for i in range(n):
                    b1 = rebuild(batch, rows=[i])
                    p = torch.exp(pol(b1, mode=SEQ).log_probs)[0, 0]
                    r = p / batch.tgt_out_probs[i, 0]
                    cr = ref_clamp(r, c)
                    bv = base(b1)[0, 0] if base is not None else torch.tensor(0.0)
                    a = batch.slate_reward[i, 0] - bv.detach()
                    rows.append(-cr * a)
                    ratios.append(r), crat.append(cr), adv.append(a)
                    bl.append((bv - batch.slate_reward[i, 0]) ** 2)
                loss = torch.stack(rows).mean()
                ctx.saw("clamp_active", c is not None and any(float(r) > c.clamp_max for r in ratios))
                t.train(batch)
                ctx.expect(not same(snap, batch), "rl_batch_untouched", f"{same(snap, batch)}")
                got_b, got_p = w.take("baseline"), w.take("policy")
                ctx.expect(not w.steps, "rl_no_foreign_step", f"{w.steps[:1]}")
                if baseline is not None:
                    ctx.saw("rl_baseline")
                    ctx.require(len(got_b) == 1, "baseline_trained_every_batch", f"{len(got_b)} steps")
                    grads_close(ctx, got_b[0], grads_of(torch.stack(bl).mean(), base), "baseline_gradient")
                    ctx.close(float(rec.got["train_baseline_loss"][-1]), float(torch.stack(bl).mean()), "baseline_loss_reported", rtol=1e-3)
                active = baseline is None or m >= warm
                ctx.saw("rl_warmup", not active)
                if active:
                    g = grads_of(loss, pol)
                    terms = max(terms, float(torch.stack(rows).abs().max()))
                    acc = g if acc is None else [x + y for x, y in zip(acc, g)]
                if active and m % interval == 0:
                    ctx.saw("rl_steps")
                    ctx.saw("rl_interval", interval > 1)
                    ctx.require(len(got_p) == 1, "policy_steps_at_the_interval", f"{len(got_p)} policy steps at batch {m}, interval {interval}")
                    grads_close(ctx, got_p[0], acc, "policy_gradient", terms)
                    acc, terms = None, 0.0
                else:
                    ctx.expect(not got_p, "policy_steps_at_the_interval", f"{len(got_p)} policy steps at batch {m}, interval {interval}, warmup {warm}")
                st = lambda xs: torch.stack(xs).detach().reshape(-1, 1)
                ctx.close(rec.got["train_ips_ratio"][-1], st(ratios), "ips_ratio_reported", rtol=1e-3)
                ctx.close(rec.got["train_clamped_ips_ratio"][-1], st(crat), "clamped_ratio_reported", rtol=1e-3)
                ctx.close(rec.got["train_advantages"][-1], st(adv), "advantage_reported", rtol=1e-3)
                ctx.close(float(rec.got["train_ips_score"][-1]), float(-(st(ratios) * batch.slate_reward).mean()), "ips_score_reported", rtol=1e-3, atol=1e-4)
                ctx.close(float(rec.got["train_clamped_ips_score"][-1]), float(-(st(crat) * batch.slate_reward).mean()), "clamped_score_reported", rtol=1e-3, atol=1e-4)


def dr(ctx, k):
    rng = ctx.sub(f"dr{k}")
    ctx.seed_all(f"dr{k}")
    net = small_net(ctx, rng, ARCHS[k % 2])
    c, onp = rand_clamp(rng), rng.random() < 0.4
    size = rng.choice([2, 2, 300])
    t = Seq2SlateDifferentiableRewardTrainer(net, Seq2SlateParameters(on_policy=onp, ips_clamp=c, learning_method=LearningMethod.DIFFERENTIABLE_REWARD), 4, policy_optimizer=sgd(0.05 if size == 2 else 0.0))
    with Watch({"policy": net}) as w:
        for m in range(3):
            n = rng.choice([1, 2, 5])
            with ctx.case("dr", dict(n=n, on=onp, clamp=str(c), m=m), distinct=(k, m)):
                ctx.saw("dr_batches")
                ctx.saw("dr_onpolicy", onp)
                ctx.saw("single_row", n == 1)
                tgt = net.max_tgt_seq_len
                batch = slate_batch(rng, net, n, propensity=torch.rand(n, 1) * 0.9 + 0.05, position_reward=torch.rand(n, tgt) * size)
                snap = snapshot(batch)
                pol = copy.deepcopy(net)
                rows = []
                for i in range(n):
                    b1 = rebuild(batch, rows=[i])
                    lp = pol(b1, mode=SYM).log_probs[0]
                    pick = torch.stack([lp[j, int(batch.tgt_out_idx[i, j])] for j in range(tgt)])
                    p = torch.exp(pick.sum())
                    wgt = p / p.detach() if onp else ref_clamp(p / batch.tgt_out_probs[i, 0], c)
                    ctx.saw("clamp_active", not onp and c is not None and float(p / batch.tgt_out_probs[i, 0]) > c.clamp_max)
                    rows.append(wgt * sum(-pick[j] * batch.position_reward[i, j] / np.log(j + 2) for j in range(tgt)))
                loss = torch.stack(rows).mean()
                out = t.train(batch)
                ctx.expect(not same(snap, batch), "dr_batch_untouched", "")
                got = w.take("policy")
                ctx.require(len(got) == 1 and not w.steps, "dr_one_step_per_batch", f"{len(got)}")
                grads_close(ctx, got[0], grads_of(loss, pol), "differentiable_reward_gradient", float(torch.stack(rows).abs().max()))
                ctx.close(float(out["sl"]), float(loss), "differentiable_reward_loss", rtol=1e-3)


def tf(ctx, k):
    rng = ctx.sub(f"tf{k}")
    ctx.seed_all(f"tf{k}")
    net = small_net(ctx, rng, ARCHS[k % 2])
    interval = rng.choice([1, 2, 4])
    t = Seq2SlateTeacherForcingTrainer(net, Seq2SlateParameters(learning_method=LearningMethod.TEACHER_FORCING), 4, policy_optimizer=sgd(0.05), policy_gradient_interval=interval)
    acc = None
    with Watch({"policy": net}) as w:
        for m in range(1, 5):
            n = rng.choice([1, 2, 5])
            with ctx.case("tf", dict(n=n, m=m, interval=interval), distinct=(k, m)):
                ctx.saw("tf_batches")
                ctx.saw("single_row", n == 1)
                tgt = net.max_tgt_seq_len
                act = orders(rng, n, net.max_src_seq_len, tgt)
                batch = slate_batch(rng, net, n, action=act, optimal=act)
                pol = copy.deepcopy(net)
                rows = []
                for i in range(n):
                    lp = pol(rebuild(batch, rows=[i]), mode=SYM).log_probs[0]
                    rows.append(-sum(lp[j, int(batch.optim_tgt_out_idx[i, j])] for j in range(tgt)))
                loss = torch.stack(rows).mean()
                g = grads_of(loss, pol)
                acc = g if acc is None else [x + y for x, y in zip(acc, g)]
                _, l = t.train(batch)
                got = w.take("policy")
                ctx.close(float(l), float(loss), "teacher_forcing_loss", rtol=1e-3)
                if m % interval == 0:
                    ctx.require(len(got) == 1, "teacher_forcing_step_interval", f"{len(got)}")
                    grads_close(ctx, got[0], acc, "teacher_forcing_gradient")
                    acc = None
                else:
                    ctx.expect(not got, "teacher_forcing_step_interval", "")


def attn(ctx, k):
    rng = ctx.sub(f"at{k}")
    ctx.seed_all(f"at{k}")
    net = small_net(ctx, rng, Seq2SlateOutputArch.ENCODER_SCORE)
    t = Seq2SlatePairwiseAttnTrainer(net, minibatch_size=4, policy_optimizer=sgd(0.05))
    rec = Rec(["cross_entropy_loss"])
    t.add_observer(rec)
    with Watch({"policy": net}) as w:
        for m in range(3):
            n = rng.choice([1, 1, 2, 5])
            with ctx.case("attn", dict(n=n, m=m, tgt=net.max_tgt_seq_len), distinct=(k, m)):
                ctx.saw("attn_batches")
                ctx.saw("single_row", n == 1)
                tgt = net.max_tgt_seq_len
                pr = torch.rand(n, tgt)
                pr[torch.rand(n, tgt) < 0.3] = 0.0
                batch = slate_batch(rng, net, n, position_reward=pr)
                pol = copy.deepcopy(net)
                rows = []
                for i in range(n):
                    s = pol(rebuild(batch, rows=[i]), mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores.reshape(-1)
                    q = torch.log_softmax(s, 0)
                    rows.append(sum(pr[i, j] * (torch.log(pr[i, j]) - q[j]) if pr[i, j] > 0 else 0.0 * q[j] for j in range(tgt)))
                loss = torch.stack(rows).mean()
                out = t.train(batch)
                got = w.take("policy")
                ctx.require(len(got) == 1, "attention_one_step_per_batch", "")
                ctx.close(float(out["cross_entropy_loss"]), float(loss), "attention_loss", rtol=1e-3, atol=1e-5)
                ctx.close(float(rec.got["cross_entropy_loss"][-1]), float(loss), "attention_loss_reported", rtol=1e-3, atol=1e-5)
                grads_close(ctx, got[0], grads_of(loss, pol), "attention_gradient")


def ref_swap(idx):
    inv = sum(1 for i in range(len(idx)) for j in range(i) if idx[j] > idx[i])
    return inv + sum(idx) - sum(range(len(idx)))


def sim(ctx, k):
    rng = ctx.sub(f"sim{k}")
    ctx.seed_all(f"sim{k}")
    net = small_net(ctx, rng, ARCHS[k % 2], cls=RecNet)
    src, tgt = net.max_src_seq_len, net.max_tgt_seq_len
    names = ["x", "y"][: rng.randint(1, 2)]
    weight = {m: rng.uniform(-2, 2) for m in names}
    power = {m: rng.choice([1, 2, 0.5]) for m in names}
    rc = rng.choice([None, RewardClamp(clamp_min=0.2, clamp_max=0.9), RewardClamp(clamp_max=0.5), RewardClamp(clamp_min=-5.0), RewardClamp(clamp_min=3.0, clamp_max=100.0)])
    pen = rng.choice([None, 0.1, -0.5])
    par = Seq2SlateParameters(simulation=SimulationParameters(reward_name_weight=weight, reward_name_power=power, reward_name_path={m: m for m in names}, reward_clamp=rc, distance_penalty=pen), learning_method=LearningMethod.SIMULATION)
    span = rng.choice([2, 2, 2, 300])
    t = Seq2SlateSimulationTrainer(net, 4, par, policy_optimizer=sgd(0.05 if span == 2 else 0.0), baseline_optimizer=sgd(0.1))
    calls = []

    def reward_net(name):
        def f(state, cand, slate, mask, idx):
            r = torch.rand(state.shape[0], 1) * span
            calls.append((name, state.clone(), cand.clone(), slate.clone(), idx.clone(), r.clone()))
            return r
        return f

    t.reward_name_and_net = {m: reward_net(m) for m in names}
    with Watch({"policy": net}) as w:
        for m in range(2):
            n = rng.choice([1, 2, 5, 5, 12])
            with ctx.case("sim", dict(n=n, src=src, tgt=tgt, clamp=str(rc), pen=pen), distinct=(k, m)):
                ctx.saw("sim_batches")
                ctx.saw("single_row", n == 1)
                ctx.saw("sim_penalty", pen is not None)
                batch = slate_batch(rng, net, n)
                calls.clear()
                if hasattr(net, "log"):
                    net.log.clear()
                pol = copy.deepcopy(net)
                t.train(batch)
                ranks = [(i, o) for i, md, o in net.log if md == Seq2SlateMode.RANK_MODE]
                used = [(i, o) for i, md, o in net.log if md == SEQ]
                ctx.require(len(ranks) >= 1 and len(used) == 1, "sim_ranks_then_trains", f"{[x[1] for x in net.log]}")
                out, (ub, uo) = ranks[-1][1], used[0]
                act = out.ranked_tgt_out_idx
                ctx.expect(torch.equal(ub.tgt_out_idx, act), "sim_trains_on_the_generated_slate", "")
                ctx.expect(torch.equal(ub.state.float_features, batch.state.float_features) and torch.equal(ub.src_seq.float_features, batch.src_seq.float_features), "sim_keeps_state_and_candidates", "")
                ctx.require([c[0] for c in calls] == names, "sim_every_reward_net_once", f"{[c[0] for c in calls]}")
                total = torch.zeros(n, 1)
                for nm, st, cand, slate, idx, r in calls:
                    feat = torch.stack([batch.src_seq.float_features[i][act[i] - 2] for i in range(n)])
                    ctx.expect(torch.equal(st, batch.state.float_features) and torch.equal(slate, feat) and torch.equal(idx, act), "sim_reward_net_sees_the_slate", "")
                    total = total + weight[nm] * r ** power[nm]
                lo, hi = (rc.clamp_min, rc.clamp_max) if rc else (None, None)
                if rc:
                    ctx.saw("sim_clamp", bool((total != torch.clamp(total, min=lo, max=hi)).any()))
                    total = torch.clamp(total, min=lo, max=hi)
                if pen is not None:
                    total = total + pen * (src * (src - 1) / 2 - torch.tensor([[float(ref_swap((a - 2).tolist()))] for a in act]))
                ctx.close(ub.slate_reward, total, "simulated_reward", rtol=1e-3)
                ctx.close(torch.exp(uo.log_probs) / ub.tgt_out_probs, torch.ones(n, 1), "on_policy_weight_is_one", rtol=2e-3)
                got = w.take("policy")
                ctx.require(len(got) == 1, "sim_one_policy_step", f"{len(got)}")
                rows = []
                for i in range(n):
                    p = torch.exp(pol(rebuild(ub, rows=[i]), mode=SEQ).log_probs)[0, 0]
                    rows.append(-(p / p.detach()) * total[i, 0])
                grads_close(ctx, got[0], grads_of(torch.stack(rows).mean(), pol), "simulation_gradient", float(total.abs().max()))


def run(ctx):
    with ctx.part("clamp"):
        clamps(ctx)
    with ctx.part("swap"):
        for k in range(ctx.n(200, 2000)):
            rng = ctx.sub(f"sw{k}")
            n = rng.randint(1, 8) if k % 5 else rng.randint(9, 30)
            idx = rng.sample(range(n + rng.randint(0, 3)), n)
            with ctx.case("swap_dist", idx):
                keep = list(idx)
                d = swap_dist(idx)
                ctx.saw("swap_dist")
                ctx.expect(d == ref_swap(keep), "swap_distance", f"{keep}: {d} want {ref_swap(keep)}")
                ctx.expect(idx == keep, "swap_distance_keeps_its_argument", "")
    for name, f, q in (("rl", rl, 25), ("dr", dr, 20), ("tf", tf, 15), ("attn", attn, 14), ("sim", sim, 24)):
        with ctx.part(name):
            for k in range(ctx.n(q, q * 8)):
                f(ctx, k)
