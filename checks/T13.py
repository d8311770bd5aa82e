"""T13: what a trainer reports about a training step is what that step computed."""
import vf.quiet  # noqa
import copy

import numpy as np
import torch
import torch.nn.functional as F
import reagent.types as rlt

from vf import zoo
from vf.train import attach, drive, is_soft, torch_opt

RULE = (
    "Every Lightning trainer is driven over batches with real optimiser steps while a recording reporter and a recording "
    "progress log take whatever it reports. The observer keeps the losses handed to the optimisers and the outputs of the "
    "networks before and after every optimiser step; each reported loss must be the loss of the step, each reported value the "
    "network's output on the batch at some moment of the step, each reported action the logged or the allowed greedy one, each "
    "reported target the declared function of the reported parts. What is reported every batch and every N-th batch is counted. A twin "
    "without reporter and with another cadence must end with identical parameters."
)
REQUIRED = {"batches": 200, "loss": 250, "values": 120, "greedy": 60, "greedy_restricted": 15, "logged_idx": 60, "propensities": 10, "model_rewards": 10, "targets": 40, "silent": 40, "progress": 40,
            "twin": 40, "actor": 20, "entropy": 10, "moved": 60}


def d(x):
    return np.asarray(torch.as_tensor(x).detach().cpu().numpy(), np.float64)


def close(a, b, rtol=2e-4, atol=2e-5):
    a, b = d(a), d(b)
    return a.size == b.size and np.allclose(a.reshape(-1), b.reshape(-1), rtol=rtol, atol=atol)


def one_of(ctx, got, cands, mech, msg):
    """the reported tensor is the network's output at some moment of the step"""
    ctx.saw("values")
    ctx.expect(got is not None and any(close(got, c) for c in cands), mech, msg, got=None if got is None else d(got).reshape(-1)[:6].tolist(), pre=d(cands[0]).reshape(-1)[:6].tolist())


def outputs(z, b):
    """what each network says about this batch, with the parameters it has now"""
    t, k = z.module, z.kind
    o = {}
    with torch.no_grad():
        if k == "dqn":
            o["q"] = t.q_network(b.state)
        elif k == "c51":
            # the harness network's own distribution over the declared support
            o["q"] = (t.q_network.log_dist(b.state).exp().double() * torch.linspace(-5, 5, 7).double()).sum(2)
        elif k == "qrdqn":
            o["q"] = t.q_network(b.state).mean(2)
        elif k == "crr":
            o["q"] = t.q1_network(b.state)
            o["q2"] = t.q2_network(b.state) if t.q2_network is not None else None
            o["pi"] = torch.softmax(t.actor_network(b.state).action.double(), 1)
        elif k == "slateq":
            n, sl = b.action.shape
            docs = b.state.candidate_docs.float_features[torch.arange(n).unsqueeze(1), b.action]
            st = b.state.float_features.unsqueeze(1).expand(n, sl, -1)
            o["q"] = t.q_network(rlt.FeatureData(st.reshape(n * sl, -1)), rlt.FeatureData(docs.reshape(n * sl, -1))).reshape(n, sl)
        elif k == "parametric":
            o["q"] = t.q_network(b.state, b.action)
        else:
            o["q"] = t.q1_network(b.state, b.action)
            o["q2"] = t.q2_network(b.state, b.action) if t.q2_network is not None else None
            if k == "td3":
                o["aq"] = t.q1_network(b.state, rlt.FeatureData(t.actor_network(b.state).action))
            elif t.alpha_optimizer is not None:
                o["temp"] = t.log_alpha.exp()
            if k == "sac" and t.value_network is not None:
                o["v"] = t.value_network(b.state.float_features)
        if z.desc.get("cpe"):
            o["r"] = t.reward_network(b.state)
    return {k: v for k, v in o.items() if v is not None}


def clone(m):
    c = copy.deepcopy(m)
    c.set_reporter(None)
    return c


def step(ctx, z, b, i, opts, rep, plog, every):
    """one training batch observed"""
    t, kind = z.module, z.kind
    rep.calls.clear()
    plog.clear()
    moments = [outputs(z, b)]
    losses = []

    def on_loss(j, o, loss, grads):
        moments.append(outputs(z, b))
        losses.append(None if loss is None else float(loss.detach()) if not is_soft(o) else None)

    if z.desc.get("noisy"):
        torch.manual_seed(i)
    drive(t, b, i, opts, on_loss, step=True)
    moments.append(outputs(z, b))
    ctx.saw("batches")
    ctx.saw("moved", any(not close(moments[0][k], moments[-1][k], 1e-6, 1e-7) for k in moments[0]))
    got = {}
    for c in rep.calls:
        for k, v in c.items():
            ctx.expect(k not in got, f"{kind}:reported-twice", f"{k} was reported twice for one batch")
            got[k] = v
    due = i % every == 0
    every_batch, every_nth = KEYS[kind](z, i)
    want = set(every_batch) | (set(every_nth) if due else set())
    have = {k for k, v in got.items() if v is not None}
    ctx.expect(want <= have and (due or not (set(every_nth) - set(every_batch)) & have), f"{kind}:reported-keys", "what is reported for a batch", batch=i, every=every, got=sorted(have), want=sorted(want))
    ctx.saw("silent", not due and bool(every_nth))
    for name, v in plog:
        ctx.saw("progress")
        ctx.expect(name == "td_loss" and close(v, losses[0]), f"{kind}:progress-log", f"the progress log of {name} is not the loss of the step", got=float(v), want=losses[0])
    if kind in ("sac", "td3", "crr", "slateq") or kind == "c51" and due:
        ctx.expect(len(plog) == 1, f"{kind}:progress-count", "the step's loss is written to the progress log once", got=len(plog))
    return got, losses, moments


def cand(moments, k):
    return [m[k] for m in moments]


def loss_is(ctx, kind, key, got, want):
    ctx.saw("loss")
    ctx.expect(key in got and want is not None and close(got[key], want), f"{kind}:{key}", f"reported {key} is not the loss the optimiser was given", got=None if key not in got else d(got[key]).tolist(), want=want)


def discrete(ctx, z, b, got, losses, moments, i, every):
    kind, t = z.kind, z.module
    if kind == "c51" and i % every:
        return
    loss_is(ctx, kind, "td_loss", got, losses[0])
    v = got.get("model_values")
    one_of(ctx, v, cand(moments, "q"), f"{kind}:model_values", "reported action values are not the network's values of the batch")
    a = b.action.argmax(1)
    ctx.saw("logged_idx")
    ctx.expect(close(got["logged_actions"], a), f"{kind}:logged_actions", "reported logged actions")
    ctx.expect(close(got["logged_rewards"], b.reward), f"{kind}:logged_rewards", "reported rewards")
    ctx.expect(close(got["logged_propensities"], b.extras.action_probability), f"{kind}:logged_propensities", "reported propensities")
    if v is None or d(v).shape != tuple(b.action.shape):
        return
    if t.maxq_learning:
        mask = d(b.possible_actions_mask) > 0
        if z.desc.get("bcq"):
            with torch.no_grad():
                p = torch.softmax(t.bcq_imitator(b.state.float_features).double(), 1)
            r = d(p / p.max(1, keepdim=True)[0])
            if (abs(r - t.bcq_drop_threshold) < 1e-4).any():
                return
            mask = mask & (r >= t.bcq_drop_threshold)
    else:
        mask = d(b.action) > 0
    ctx.saw("greedy")
    ctx.saw("greedy_restricted", bool((~mask).any()))
    idx = d(got["model_action_idxs"]).reshape(-1).astype(int)
    vals = d(v)
    ok = len(idx) == len(vals)
    for row in range(len(vals) if ok else 0):
        if not mask[row].any():
            continue
        best = vals[row][mask[row]].max()
        # ties within the precision lost by masking with large constants
        ok &= bool(mask[row][idx[row]] and vals[row][idx[row]] >= best - 1e-3 - 1e-4 * abs(best)) if best > -1e6 else True
    ctx.expect(ok, f"{kind}:model_action_idxs", "reported model actions are not the best allowed ones", idx=idx.tolist(), values=vals.tolist(), mask=mask.tolist())
    if z.desc.get("cpe"):
        loss_is(ctx, kind, "reward_loss", got, losses[z.cpe_at])
        ctx.saw("model_rewards")
        one_of(ctx, got["model_rewards"], [r[:, :b.action.shape[1]] for r in cand(moments, "r")], f"{kind}:model_rewards", "reported reward estimates are not the reward network's")
        m = b.possible_actions_mask if t.maxq_learning else b.action
        x = vals / t.rl_temperature
        x = np.where(d(m) > 0, x, -np.inf)
        rows = np.isfinite(x.max(1))
        x = x[rows] - x[rows].max(1, keepdims=True)
        p = np.exp(x) / np.exp(x).sum(1, keepdims=True)
        ctx.saw("propensities")
        ctx.expect(np.allclose(d(got["model_propensities"])[rows], p, atol=5e-3), f"{kind}:model_propensities", "reported model propensities are not the softmax of the reported values over the allowed actions",
                   got=d(got["model_propensities"])[rows][:3].tolist(), want=p[:3].tolist())


def target_relation(ctx, z, b, got, nxt):
    ctx.saw("targets")
    want = d(b.reward) + z.module.gamma * d(got[nxt]) * d(b.not_terminal.float())
    ctx.expect(close(got["target_q_value"], want), f"{z.kind}:target_q_value", "reported target is not reward + discount x reported next value", got=d(got["target_q_value"]).reshape(-1).tolist(), want=want.reshape(-1).tolist())


def two_critics(ctx, z, b, got, losses, moments, nxt, by_action):
    kind = z.kind
    pick = (lambda x: (x * b.action).sum(1, keepdim=True)) if by_action else (lambda x: x)
    one_of(ctx, got["q1_value"], [pick(x) for x in cand(moments, "q")], f"{kind}:q1_value", "reported critic value")
    target_relation(ctx, z, b, got, nxt)
    if "q1_loss" in got:
        loss_is(ctx, kind, "q1_loss", got, losses[0])
    ctx.expect(close(np.mean((d(got["q1_value"]).reshape(-1) - d(got["target_q_value"]).reshape(-1)) ** 2), losses[0], 1e-3, 1e-4), f"{kind}:q1-loss-relation", "reported value and target do not give the step's loss")
    if z.module.q2_network is not None:
        one_of(ctx, got["q2_value"], [pick(x) for x in cand(moments, "q2")], f"{kind}:q2_value", "reported second critic value")
        ctx.expect(close(np.mean((d(got["q2_value"]).reshape(-1) - d(got["target_q_value"]).reshape(-1)) ** 2), losses[1], 1e-3, 1e-4), f"{kind}:q2-loss-relation", "second critic's reported value and target do not give its loss")
        if "q2_loss" in got:
            loss_is(ctx, kind, "q2_loss", got, losses[1])


def judge(ctx, z, b, i, every, got, losses, moments):
    kind, t = z.kind, z.module
    due = i % every == 0
    two = getattr(t, "q2_network", None) is not None
    if kind in ("dqn", "c51", "qrdqn", "crr"):
        discrete(ctx, z, b, got, losses, moments, i, every)
        if kind == "crr" and due:
            two_critics(ctx, z, b, got, losses, moments, "next_q_value", True)
            if i % z.delay == 0:
                ctx.saw("actor")
                loss_is(ctx, kind, "actor_loss", got, losses[2 if two else 1])
                pis, qs = cand(moments, "pi"), cand(moments, "q")
                one_of(ctx, got["actor_q1_value"], [(p * q).sum(1) for p in pis for q in qs], "crr:actor_q1_value", "reported state value under the actor")
    elif kind == "parametric":
        loss_is(ctx, kind, "td_loss", got, losses[0])
        loss_is(ctx, kind, "reward_loss", got, losses[1])
        one_of(ctx, got["model_values_on_logged_actions"], cand(moments, "q"), "parametric:model_values_on_logged_actions", "reported values of the logged actions")
        ctx.expect(close(got["logged_rewards"], b.reward), "parametric:logged_rewards", "reported rewards")
    elif kind == "slateq":
        loss_is(ctx, kind, "td_loss", got, losses[0])
        f = (lambda q: q[b.reward_mask]) if t.single_selection else (lambda q: q.sum(1))
        one_of(ctx, got["model_values_on_logged_actions"], [f(q) for q in cand(moments, "q")], "slateq:model_values_on_logged_actions", "reported values of the shown items")
    elif kind == "td3":
        if due:
            two_critics(ctx, z, b, got, losses, moments, "next_q_value", False)
            if i % z.delay == 0:
                ctx.saw("actor")
                loss_is(ctx, kind, "actor_loss", got, losses[2 if two else 1])
                one_of(ctx, got["actor_q1_value"], cand(moments, "aq"), "td3:actor_q1_value", "reported value of the actor's action")
    else:
        loss_is(ctx, kind, "td_loss", got, losses[0])
        one_of(ctx, got["model_values_on_logged_actions"], cand(moments, "q"), "sac:model_values_on_logged_actions", "reported values of the logged actions")
        ctx.expect(close(got["logged_rewards"], b.reward), "sac:logged_rewards", "reported rewards")
        if not due:
            return
        two_critics(ctx, z, b, got, losses, moments, "next_state_value", False)
        ai = 2 if two else 1
        ctx.saw("actor")
        ctx.expect(close(d(got["actor_loss"]).mean(), losses[ai], 1e-3, 1e-4), "sac:actor_loss", "the reported per-row actor losses do not average to the step's loss", got=float(d(got["actor_loss"]).mean()), want=losses[ai])
        temps = cand(moments, "temp") if t.alpha_optimizer is not None else [torch.tensor(0.01)]
        ctx.saw("entropy")
        ctx.expect(any(close(got["entropy_temperature"], x) for x in temps), "sac:entropy_temperature", "reported entropy temperature", got=d(got["entropy_temperature"]).tolist(), want=[d(x).tolist() for x in temps])
        lp, mq = d(got["actor_output_log_prob"]).reshape(-1), d(got["min_q_actor_value"]).reshape(-1)
        if t.crr_config is None:
            ctx.expect(any(close(d(got["actor_loss"]).reshape(-1), float(d(x)) * lp - mq, 1e-3, 1e-4) for x in temps), "sac:actor-parts", "the reported actor loss is not temperature x reported log-probability - reported value")
        if t.value_network is not None:
            bonus = 0.0 if z.uniform_prior else float(d(got["entropy_temperature"]).reshape(-1)[0]) * lp.clip(-20, 20)
            ctx.expect(close(got["target_state_value"], mq - bonus, 1e-3, 1e-4), "sac:target_state_value", "the reported state-value target is not value - temperature x log-probability")
            ctx.expect(any(close(np.mean((d(v).reshape(-1) - d(got["target_state_value"]).reshape(-1)) ** 2), losses[-2], 1e-3, 1e-4) for v in cand(moments, "v")), "sac:value-loss", "the reported state-value target does not give the value loss")


BASE = ["td_loss", "logged_actions", "logged_propensities", "logged_rewards", "model_values", "model_action_idxs"]
CPE = ["reward_loss", "model_propensities", "model_rewards"]


def _crr(z, i):
    nth = ["q1_loss", "q1_value", "next_q_value", "target_q_value"] + (["q2_loss", "q2_value"] if z.module.q2_network is not None else []) + (["actor_loss", "actor_q1_value"] if i % z.delay == 0 else [])
    return (BASE if z.kind == "crr" else []) + (CPE if z.desc.get("cpe") else []), nth


def _sac(z, i):
    t = z.module
    nth = ["q1_value", "entropy_temperature", "log_prob_a", "next_state_value", "target_q_value", "min_q_actor_value", "actor_output_log_prob", "actor_loss"]
    return ["td_loss", "logged_rewards", "model_values_on_logged_actions"], nth + (["q2_value"] if t.q2_network is not None else []) + (["target_state_value"] if t.value_network is not None else [])


KEYS = {
    "dqn": lambda z, i: (BASE + (CPE if z.desc.get("cpe") else []), []), "qrdqn": lambda z, i: (BASE + (CPE if z.desc.get("cpe") else []), []), "c51": lambda z, i: ([], BASE),
    "parametric": lambda z, i: (["td_loss", "reward_loss", "logged_rewards", "model_values_on_logged_actions"], []), "slateq": lambda z, i: (["td_loss", "model_values_on_logged_actions"], []),
    "td3": _crr, "crr": _crr, "sac": _sac,
}


def watch(ctx, rng, kind, k):
    prior = rng.random() < 0.5
    z = zoo.build(rng, kind, **(dict(logged_action_uniform_prior=prior) if kind == "sac" else {}))
    z.uniform_prior = prior
    if z.desc.get("bcq"):  # an imitator with an opinion
        with torch.no_grad():
            for p in z.module.bcq_imitator.parameters():
                p.mul_(3.0)
    z.cpe_at = next((j for j, names in enumerate(z.owned) if names == ("reward_network",)), None)
    every = rng.choice([1, 2, 3])
    batches = [z.make_batch() for _ in range(rng.randint(2, 5))]
    twin = clone(z.module)
    with ctx.case("reports-" + kind, dict(z.desc, every=every, batches=len(batches)), distinct=(kind, k)):
        t = z.module
        plog = []
        t.log = lambda name, v, *a, **kw: plog.append((name, v))
        rep = attach(t, every)
        opts = t.configure_optimizers()
        seed = rng.randrange(10 ** 6)
        torch.manual_seed(seed)
        for i, b in enumerate(batches):
            torch.manual_seed(seed + i)
            got, losses, moments = step(ctx, z, b, i, opts, rep, plog, every)
            judge(ctx, z, b, i, every, got, losses, moments)
        # the same training without anybody listening, at another cadence
        attach(twin, rng.choice([1, 7]))
        twin.set_reporter(None)
        opts2 = twin.configure_optimizers()
        for i, b in enumerate(batches):
            torch.manual_seed(seed + i)
            drive(twin, b, i, opts2, lambda *a: None, step=True)
        ctx.saw("twin")
        bad = [n for (n, p), q in zip(t.named_parameters(), twin.parameters()) if not torch.equal(p, q)]
        ctx.expect(not bad, f"{kind}:reporting-changes-training", "parameters depend on whether and how often the trainer reports", parameters=bad[:5])


def run(ctx):
    for k in range(ctx.n(14, 140)):
        for kind in zoo.KINDS:
            with ctx.part(kind):
                ctx.seed_all(f"{kind}{k}")
                watch(ctx, ctx.sub(f"{kind}{k}"), kind, k)
