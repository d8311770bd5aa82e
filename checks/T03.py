"""T03: actor-critic targets and losses follow their definitions."""
import vf.quiet  # noqa
import math

import numpy as np
import torch
import torch.nn as nn
import reagent.types as rlt
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.td3_trainer import TD3Trainer

from vf.train import (CriticNet, DetActor, GaussActor, LogitActor, Mlp, QNet, attach, check_grad, dqn_batch, drive, feats, is_soft, magnitude, not_terminal,
                      opt_params, perturbed, same, snapshot)

RULE = (
    "TD3, SAC and discrete CRR trainers are driven through training_step with harness-owned networks that record every "
    "call, so the sampled actions are observed rather than replayed. Critic targets, actor objectives, temperature and "
    "value losses are recomputed row by row from the recorded actions, and each loss is compared in value and gradient "
    "with the reference on exactly the parameters of the optimizer it is paired with. Target-policy noise is tested for "
    "clipping, range and scale."
)
REQUIRED = {"td3_q": 60, "td3_actor": 20, "td3_noise": 150, "td3_clipped": 10, "sac_q": 60, "sac_actor": 30, "sac_alpha": 15, "sac_value": 10, "sac_crr": 8, "crr_q": 50, "crr_actor": 20, "terminal_row": 60, "two_critics": 30, "delayed": 20, "noise_rows": 2000}


class RecCritic(CriticNet):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def forward(self, state, action):
        self.calls.append((state.float_features.detach(), action.float_features))
        return super().forward(state, action)

    def quiet(self, state, action):
        r = super().forward(state, action)
        return r


class RecGauss(GaussActor):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def forward(self, state):
        out = super().forward(state)
        self.calls.append((state.float_features.detach(), out))
        return out


class VNet(Mlp):
    pass  # state tensor -> value


def policy_batch(rng, n, s, a):
    return rlt.PolicyNetworkInput(state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1) * magnitude(rng, 2.0), time_diff=torch.ones(n, 1), step=torch.ones(n, 1),
                                  not_terminal=not_terminal(rng, n), action=rlt.FeatureData(torch.rand(n, a) * 2 - 1), next_action=rlt.FeatureData(torch.rand(n, a) * 2 - 1),
                                  extras=rlt.ExtraData())


def pairing(ctx, who, o, net_params):
    ctx.expect({id(p) for p in opt_params(o)} == {id(p) for p in net_params}, who + "_loss_meets_its_own_optimizer", "a loss is paired with the optimizer of other parameters")


def td3(ctx, k):
    rng = ctx.sub(f"td3{k}")
    ctx.seed_all(f"td3{k}")
    n, s, a = rng.choice([1, 2, 5, 40]), rng.randint(1, 3), rng.randint(1, 3)
    two = rng.random() < 0.6
    var, clip = rng.choice([0.0, 0.1, 0.5, 2.0]), rng.choice([0.05, 0.5, 1.0])
    delay = rng.choice([1, 2, 3, 3, 6])
    gamma = rng.choice([0.0, 0.05, 0.9, 1.0])
    t = TD3Trainer(DetActor(s, a, scale=2.0), RecCritic(s, a), RecCritic(s, a) if two else None, rl=RLParameters(gamma=gamma), noise_variance=var, noise_clip=clip, delayed_policy_update=delay)
    attach(t)
    ctx.seed_all(f"td3-perturb{k}")
    with torch.no_grad():
        for net in (t.q1_network_target, getattr(t, "q2_network_target", None) if two else None, t.actor_network_target):
            if net is not None:
                for p in net.parameters():
                    p.add_(torch.randn_like(p) * 0.5)
    opts = t.configure_optimizers()
    for bi in range(rng.choice([1, 2, 4]) if delay < 5 else 8):
        finished = False
        batch = policy_batch(rng, n, s, a)
        snap = snapshot(batch)
        with ctx.case("td3", dict(n=n, a=a, two=two, var=var, clip=clip, gamma=gamma, delay=delay, bi=bi), distinct=(k, bi)):
            for net in (t.q1_network, t.q1_network_target) + ((t.q2_network, t.q2_network_target) if two else ()):
                net.calls.clear()
            ctx.saw("two_critics", two)
            ctx.saw("terminal_row", int((batch.not_terminal == 0).sum()))
            box = {}

            def on_loss(i, o, loss, grads):
                if i == 0:
                    nxt = [c for c in t.q1_network_target.calls]
                    ctx.require(len(nxt) >= 1, "td3_targets_come_from_target_critic", "the target critic was never consulted")
                    st, na = nxt[0]
                    ctx.require(torch.equal(st, batch.next_state.float_features), "td3_target_evaluated_at_next_state", "the target critic saw another state")
                    base = t.actor_network_target(batch.next_state).action.detach()
                    d = (na - base).abs()
                    ctx.expect(bool((na.abs() <= 1 + 1e-6).all()), "td3_noisy_action_in_training_range", f"{na.abs().max()}")
                    ctx.expect(bool((d <= clip + 1e-5).all()), "td3_noise_is_clipped", f"noise {float(d.max())} beyond clip {clip}")
                    if var == 0:
                        ctx.close(na, base, "td3_no_noise_when_variance_zero")
                    ctx.saw("td3_noise", n)
                    ctx.saw("td3_clipped", int((d > clip - 1e-5).any()))
                    fd = rlt.FeatureData(na.detach())
                    nv = t.q1_network_target.quiet(batch.next_state, fd)
                    if two:
                        ctx.expect(all(torch.equal(c[1], na) for c in t.q2_network_target.calls), "td3_critics_share_the_target_action", "target critics saw different actions")
                        nv = torch.min(nv, t.q2_network_target.quiet(batch.next_state, fd))
                    box["t"] = torch.tensor([[float(batch.reward[j]) + gamma * float(nv[j]) * float(batch.not_terminal[j])] for j in range(n)])
                if i < 1 + two:
                    net = [t.q1_network, t.q2_network][i]
                    ref = ((CriticNet.forward(net, batch.state, batch.action) - box["t"]) ** 2).mean()
                    ctx.saw("td3_q")
                    ctx.close(loss, ref, "td3_critic_loss")
                    pairing(ctx, "td3_critic", o, net.parameters())
                    check_grad(ctx, "td3_critic_gradient", grads, ref, list(net.parameters()))
                elif i == 1 + two:
                    ctx.saw("delayed", delay > 1)
                    if bi % delay:
                        ctx.expect(loss is None, "td3_policy_update_is_delayed", f"batch {bi} delay {delay}: the actor was updated")
                    else:
                        ctx.require(loss is not None, "td3_policy_updates_on_schedule", f"batch {bi} delay {delay}")
                        ref = -CriticNet.forward(t.q1_network, batch.state, rlt.FeatureData(t.actor_network(batch.state).action)).mean()
                        ctx.saw("td3_actor")
                        ctx.close(loss, ref, "td3_actor_loss")
                        pairing(ctx, "td3_actor", o, t.actor_network.parameters())
                        check_grad(ctx, "td3_actor_gradient", grads, ref, list(t.actor_network.parameters()))
                else:
                    ctx.expect((loss is None) == bool(bi % delay), "td3_target_update_is_delayed", f"batch {bi} delay {delay}")
                    ctx.expect(is_soft(o), "soft_update_comes_last")

            drive(t, batch, bi, opts, on_loss, step=rng.random() < 0.5)
            ctx.expect(not same(snap, batch), "batch_is_not_modified", f"{same(snap, batch)}")
            finished = True
        if not finished:
            break


def noise_scale(ctx, k):
    """Clipped-normal spread of the target noise, with the actor near 0 so the range clamp is
    inactive; 8 standard errors on mean and mean square."""
    rng = ctx.sub(f"noise{k}")
    ctx.seed_all(f"noise{k}")
    n, a = 1500, 2
    std, clip = rng.choice([0.05, 0.1, 0.2, 0.3, 0.6]), (0.85 if k % 2 else rng.choice([0.1, 0.3, 0.5]))
    std = 0.6 if clip > 0.5 else std
    t = TD3Trainer(DetActor(2, a, scale=0.05), RecCritic(2, a), None, rl=RLParameters(), noise_variance=std, noise_clip=clip)
    attach(t)
    batch = policy_batch(rng, n, 2, a)
    with ctx.case("td3_noise_scale", (std, clip, k)):
        drive(t, batch, 0, t.configure_optimizers(), lambda *x: None)
        na = t.q1_network_target.calls[0][1]
        x = (na - t.actor_network_target(batch.next_state).action.detach()).double().numpy().reshape(-1)
        ctx.saw("noise_rows", len(x))
        c = clip / std
        phi, Phi = math.exp(-c * c / 2) / math.sqrt(2 * math.pi), 0.5 * (1 + math.erf(c / math.sqrt(2)))
        want = std * std * ((2 * Phi - 1) - 2 * c * phi + 2 * c * c * (1 - Phi))
        got = float(np.mean(x ** 2))
        ctx.expect(abs(got - want) <= want * 8 * math.sqrt(2.0 / len(x)), "td3_noise_has_declared_scale", f"mean square {got} want {want} (std {std}, clip {clip}, {len(x)} draws)")
        ctx.expect(abs(float(x.mean())) <= 8 * math.sqrt(want / len(x)), "td3_noise_is_centred", f"mean {x.mean()}")
        # independent across rows and action dimensions
        y = x.reshape(-1, a)
        r = float(np.corrcoef(y[:, 0], y[:, 1])[0, 1])
        ctx.expect(abs(r) < 8 / math.sqrt(n), "td3_noise_independent_per_dimension", f"correlation {r}")


def sac(ctx, k):
    rng = ctx.sub(f"sac{k}")
    ctx.seed_all(f"sac{k}")
    n, s, a = rng.choice([2, 5, 9, 40]), rng.randint(1, 3), rng.randint(1, 3)
    # narrow and wide densities in many dimensions reach both ends of the log-probability clamp
    ls = rng.choice([0.0, 0.0, 0.0, -4.0, 3.0])
    a = rng.randint(4, 12) if ls else a
    value_net = rng.random() < 0.45
    two = rng.random() < 0.6
    use_alpha = rng.random() < 0.6
    crr = None
    if value_net and rng.random() < 0.5:
        crr = rng.choice([dict(indicator_fn_threshold=0.1), dict(exponent_beta=0.7, exponent_clamp=1.5), dict(exponent_beta=2.0)])
    kld = rng.random() < 0.25
    on_mean = rng.random() < 0.5
    bp = rng.random() < 0.6 or crr is not None
    uniform = rng.random() < 0.5
    gamma = rng.choice([0.0, 0.05, 0.9, 1.0])
    temp = rng.choice([0.01, 0.5, 2.0])
    te = rng.uniform(-3, 1)
    kw = {}
    if not use_alpha:
        kw["alpha_optimizer"] = None
    if kld:
        kw.update(action_embedding_kld_weight=0.3, apply_kld_on_mean=on_mean, action_embedding_mean=[rng.uniform(-1, 1) for _ in range(a)], action_embedding_variance=[rng.uniform(0.2, 2) for _ in range(a)])
    v = VNet(s, 1) if value_net else None
    t = SACTrainer(RecGauss(s, a, log_std=ls), RecCritic(s, a), RecCritic(s, a) if two else None, v, rl=RLParameters(gamma=gamma), entropy_temperature=temp, target_entropy=te,
                   logged_action_uniform_prior=uniform, crr_config=CRRWeightFn(**crr) if crr else None, backprop_through_log_prob=bp, **kw)
    attach(t)
    with torch.no_grad():
        for net in [getattr(t, x, None) for x in ("q1_network_target", "q2_network_target", "value_network_target")]:
            if net is not None:
                for p in net.parameters():
                    p.add_(torch.randn_like(p) * 0.5)
    opts = t.configure_optimizers()
    order = ["q1"] + (["q2"] if two else []) + ["actor"] + (["alpha"] if use_alpha else []) + (["value"] if value_net else []) + ["soft"]
    ctx.expect(len(opts) == len(order), "sac_declares_one_optimizer_per_loss", f"{len(opts)} optimizers, {order}")
    for bi in range(rng.choice([1, 3])):
        finished = False
        batch = policy_batch(rng, n, s, a)
        snap = snapshot(batch)
        desc = dict(n=n, two=two, value=value_net, alpha=use_alpha, crr=crr, kld=kld, bp=bp, uniform=uniform, gamma=gamma, temp=temp, bi=bi)
        with ctx.case("sac", desc, distinct=(k, bi)):
            t.actor_network.calls.clear()
            ctx.saw("two_critics", two)
            ctx.saw("terminal_row", int((batch.not_terminal == 0).sum()))
            box = {"temp": float(t.log_alpha.exp()) if use_alpha else temp}
            C = CriticNet.forward

            def on_loss(i, o, loss, grads):
                what = order[i]
                T = box["temp"]
                if what == "q1":
                    if value_net:
                        nv = t.value_network_target(batch.next_state.float_features).detach()
                    else:
                        ns = [c for c in t.actor_network.calls if torch.equal(c[0], batch.next_state.float_features)]
                        ctx.require(len(ns) == 1, "sac_next_action_from_current_policy", f"{len(ns)} policy evaluations at the next state")
                        act = ns[0][1].action.detach()
                        fd = rlt.FeatureData(act)
                        nv = C(t.q1_network_target, batch.next_state, fd)
                        if two:
                            nv = torch.min(nv, C(t.q2_network_target, batch.next_state, fd))
                        lp = t.actor_network.get_log_prob(batch.next_state, act).clamp(-20, 20)
                        nv = (nv - T * lp).detach()
                    box["t"] = torch.tensor([[float(batch.reward[j]) + gamma * float(nv[j]) * float(batch.not_terminal[j])] for j in range(n)])
                if what in ("q1", "q2"):
                    net = t.q1_network if what == "q1" else t.q2_network
                    ref = ((C(net, batch.state, batch.action) - box["t"]) ** 2).mean()
                    ctx.saw("sac_q")
                    ctx.close(loss, ref, "sac_critic_loss", rtol=1e-3, atol=1e-4)
                    pairing(ctx, "sac_critic", o, net.parameters())
                    check_grad(ctx, "sac_critic_gradient", grads, ref, list(net.parameters()))
                elif what == "actor":
                    cs = [c for c in t.actor_network.calls if torch.equal(c[0], batch.state.float_features)]
                    ctx.require(len(cs) == 1, "sac_actor_evaluated_once_at_state", f"{len(cs)}")
                    out = cs[0][1]
                    box["out"] = out
                    fd = rlt.FeatureData(out.action)
                    mq = C(t.q1_network, batch.state, fd)
                    if two:
                        mq = torch.min(mq, C(t.q2_network, batch.state, fd))
                    box["mq"] = mq.detach()
                    lp = out.log_prob if bp else out.log_prob.detach()
                    if crr:
                        adv = (mq - t.value_network(batch.state.float_features)).detach()
                        if "exponent_beta" in crr:
                            w = torch.exp(adv / crr["exponent_beta"])
                            if crr.get("exponent_clamp"):
                                w = w.clamp(0, crr["exponent_clamp"])
                        else:
                            w = (adv >= crr["indicator_fn_threshold"]).float()
                        ref = -(lp * w).mean()
                        ctx.saw("sac_crr")
                    else:
                        ref = (T * lp - mq).mean()
                    if kld:
                        x = out.squashed_mean if on_mean else out.action
                        m, var = x.mean(0), x.var(0)
                        em, ev = torch.tensor(kw["action_embedding_mean"]), torch.tensor(kw["action_embedding_variance"])
                        ref = ref + 0.3 * 0.5 * ((var + (m - em) ** 2) / ev - 1 + ev.log() - var.log()).sum()
                    ctx.saw("sac_actor")
                    ctx.close(loss, ref, "sac_actor_loss", rtol=1e-3, atol=1e-4)
                    pairing(ctx, "sac_actor", o, t.actor_network.parameters())
                    if ref.requires_grad:
                        check_grad(ctx, "sac_actor_gradient", grads, ref, list(t.actor_network.parameters()), rtol=3e-3, atol=1e-4)
                elif what == "alpha":
                    ref = -(t.log_alpha * (box["out"].log_prob + te).detach()).mean()
                    ctx.saw("sac_alpha")
                    ctx.close(loss, ref, "sac_temperature_loss")
                    pairing(ctx, "sac_alpha", o, [t.log_alpha])
                    check_grad(ctx, "sac_temperature_gradient", grads, ref, [t.log_alpha])
                elif what == "value":
                    # the temperature was just updated by the alpha step
                    Tn = float(t.log_alpha.exp()) if use_alpha else temp
                    tv = box["mq"] if uniform else box["mq"] - Tn * box["out"].log_prob.detach().clamp(-20, 20)
                    ref = ((t.value_network(batch.state.float_features) - tv) ** 2).mean()
                    ctx.saw("sac_value")
                    ctx.close(loss, ref, "sac_value_loss", rtol=1e-3, atol=1e-4)
                    pairing(ctx, "sac_value", o, t.value_network.parameters())
                    check_grad(ctx, "sac_value_gradient", grads, ref, list(t.value_network.parameters()))
                else:
                    ctx.expect(is_soft(o), "soft_update_comes_last")

            drive(t, batch, bi, opts, on_loss, step=True)
            if use_alpha:
                ctx.close(torch.as_tensor(t.entropy_temperature).reshape(-1)[0], t.log_alpha.exp()[0], "sac_temperature_follows_log_alpha")
            ctx.expect(not same(snap, batch), "batch_is_not_modified", f"{same(snap, batch)}")
            finished = True
        if not finished:
            break


def crr(ctx, k):
    rng = ctx.sub(f"crr{k}")
    ctx.seed_all(f"crr{k}")
    n, s, a = rng.choice([1, 2, 6, 25]), rng.randint(1, 3), rng.randint(2, 5) if rng.random() < 0.8 else rng.randint(6, 20)
    top = magnitude(rng)
    names = [f"a{i}" for i in range(a)]
    boost = {x: rng.uniform(-top, top) for x in rng.sample(names, rng.randint(1, a))} if rng.random() < 0.4 else None
    two, use_t = rng.random() < 0.6, rng.random() < 0.5
    cpe = rng.random() < 0.4
    delay = rng.choice([1, 2, 3, 3, 6])
    gamma = rng.choice([0.0, 0.05, 0.9, 1.0])
    mode = rng.random() < 0.5
    kw = {}
    if cpe:
        qc = QNet(s, a)
        kw = dict(q_network_cpe=qc, q_network_cpe_target=perturbed(qc))
    t = DiscreteCRRTrainer(LogitActor(s, a, scale=2.0), QNet(s, a, scale=rng.choice([1.0, 5.0, 60.0])), QNet(s, a) if cpe else None, QNet(s, a) if two else None, actions=names,
                           rl=RLParameters(gamma=gamma, reward_boost=boost, maxq_learning=mode), use_target_actor=use_t, delayed_policy_update=delay,
                           evaluation=EvaluationParameters(calc_cpe_in_training=cpe), **kw)
    attach(t)
    with torch.no_grad():
        for net in (t.q1_network_target, t.q2_network_target if two else None, t.actor_network_target):
            if net is not None:
                for p in net.parameters():
                    p.add_(torch.randn_like(p) * 0.5)
    opts = t.configure_optimizers()
    order = ["q1"] + (["q2"] if two else []) + ["actor"] + (["reward", "cpe"] if cpe else []) + ["soft"]
    ctx.expect(len(opts) == len(order), "crr_declares_one_optimizer_per_loss", f"{len(opts)} {order}")
    for bi in range(rng.choice([1, 2, 4]) if delay < 5 else 8):
        finished = False
        batch = dqn_batch(rng, n, s, a, wide=True)
        snap = snapshot(batch)
        with ctx.case("discrete_crr", dict(n=n, a=a, two=two, use_t=use_t, cpe=cpe, delay=delay, bi=bi, boost=boost, gamma=gamma), distinct=(k, bi)):
            box = {}
            ctx.saw("two_critics", two)
            ctx.saw("terminal_row", int((batch.not_terminal == 0).sum()))

            def on_loss(i, o, loss, grads):
                what = order[i]
                act = batch.action.argmax(1)
                if what == "q1":
                    pol = torch.softmax((t.actor_network_target if use_t else t.actor_network)(batch.next_state).action, 1).detach()
                    nv = (t.q1_network_target(batch.next_state) * pol).sum(1)
                    if two:
                        nv = torch.min(nv, (t.q2_network_target(batch.next_state) * pol).sum(1))
                    box["t"] = torch.tensor([float(batch.reward[j]) + (boost or {}).get(names[int(act[j])], 0.0) + gamma * float(nv[j]) * float(batch.not_terminal[j]) for j in range(n)])
                if what in ("q1", "q2"):
                    net = t.q1_network if what == "q1" else t.q2_network
                    ref = ((net(batch.state)[torch.arange(n), act] - box["t"]) ** 2).mean()
                    ctx.saw("crr_q")
                    ctx.close(loss, ref, "crr_critic_loss")
                    pairing(ctx, "crr_critic", o, net.parameters())
                    check_grad(ctx, "crr_critic_gradient", grads, ref, list(net.parameters()))
                elif what == "actor":
                    ctx.saw("delayed", delay > 1)
                    if bi % delay:
                        ctx.expect(loss is None, "crr_policy_update_is_delayed", f"batch {bi} delay {delay}")
                        return
                    ctx.require(loss is not None, "crr_policy_updates_on_schedule", f"batch {bi} delay {delay}")
                    logp = torch.log_softmax(t.actor_network(batch.state).action, 1)
                    qv = t.q1_network(batch.state).detach()
                    adv = qv[torch.arange(n), act] - (qv * logp.exp().detach()).sum(1)
                    ref = -(logp[torch.arange(n), act] * adv.exp().clamp(0, 20.0)).mean()
                    ctx.saw("crr_actor")
                    ctx.close(loss, ref, "crr_actor_loss", rtol=1e-3)
                    pairing(ctx, "crr_actor", o, t.actor_network.parameters())
                    check_grad(ctx, "crr_actor_gradient", grads, ref, list(t.actor_network.parameters()))
                elif what in ("reward", "cpe"):
                    net = t.reward_network if what == "reward" else t.q_network_cpe
                    pairing(ctx, "crr_" + what, o, net.parameters())
                    ok = loss is not None and loss.requires_grad and grads is not None and any(g is not None for g in grads)
                    ctx.expect(ok, "crr_cpe_losses_train_their_networks_every_batch", f"{what} loss at batch {bi} (delay {delay}): {loss}")
                    if ok and what == "reward":
                        ctx.close(loss, ((net(batch.state)[torch.arange(n), act] - batch.reward[:, 0]) ** 2).mean(), "crr_reward_loss")
                else:
                    ctx.expect(is_soft(o), "soft_update_comes_last")
                    ctx.expect((loss is None) == bool(bi % delay), "crr_target_update_is_delayed", f"batch {bi} delay {delay}: {loss}")

            drive(t, batch, bi, opts, on_loss, step=rng.random() < 0.5)
            ctx.expect(not same(snap, batch), "batch_is_not_modified", f"{same(snap, batch)}")
            finished = True
        if not finished:
            break


def run(ctx):
    with ctx.part("td3"):
        for k in range(ctx.n(80, 700)):
            td3(ctx, k)
        for k in range(ctx.n(4, 30)):
            noise_scale(ctx, k)
    with ctx.part("sac"):
        for k in range(ctx.n(90, 800)):
            sac(ctx, k)
    with ctx.part("crr"):
        for k in range(ctx.n(90, 800)):
            crr(ctx, k)
