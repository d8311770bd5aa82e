"""T04: policy-gradient learners (REINFORCE, PPO) and their return helpers."""
import vf.quiet  # noqa
import math
import types as pt

import numpy as np
import torch
import reagent.types as rlt
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.optimizer import Optimizer__Union
from reagent.optimizer.union import classes
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.utils import discounted_returns, gen_permutations, rescale_actions, whiten

from vf.train import Mlp, same, snapshot, torch_opt

RULE = (
    "Random trajectories are pushed through Reinforce.train / PPOTrainer.train with harness-owned scorers, value nets and "
    "plain SGD, so every update is observed as a parameter change. The change is compared with minus the learning rate "
    "times the gradient of a reference loss recomputed step by step in Python, over exactly the trajectories that were "
    "due; a scorer call log shows which trajectories each PPO pass consumed. Helpers are compared with their definitions."
)
REQUIRED = {"returns": 60, "whiten": 60, "reinforce_update": 80, "reinforce_offpolicy": 20, "reinforce_clipped": 5, "reinforce_baseline": 20, "reinforce_multi": 15, "ppo_step": 150, "ppo_clipped": 20,
            "ppo_entropy": 20, "ppo_baseline": 20, "ppo_traj_use": 200, "ppo_second_round": 10, "single_step_traj": 15, "constant_returns": 10, "permutations": 5, "rescale": 20}
LR = 0.05


class Scorer(torch.nn.Module):
    def __init__(self, s, a):
        super().__init__()
        self.m = Mlp(s, a)
        self.log = []

    def score(self, state, mask):
        x = self.m(state.float_features)
        return x if mask is None else x.masked_fill(mask == 0, -1e10)

    def forward(self, state, possible_actions_mask=None):
        self.log.append((state.float_features.detach().clone(), possible_actions_mask))
        return self.score(state, possible_actions_mask)


class VNet(Mlp):
    def forward(self, state):
        return super().forward(state.float_features)


def sgd():
    return Optimizer__Union(SGD=classes["SGD"](lr=LR))


def traj(rng, T, s, a, scorer, temp, const=False, masks=True, drift=1.0, scale=3.0):
    act = [rng.randrange(a) for _ in range(T)]
    mask = None
    if masks:
        mask = torch.zeros(T, a)
        for i in range(T):
            for j in range(a):
                mask[i, j] = float(rng.random() < 0.7)
            mask[i, act[i]] = 1.0
    st = rlt.FeatureData(torch.randn(T, s))
    with torch.no_grad():
        lp = torch.log_softmax(scorer.score(st, mask) / temp, 1)[torch.arange(T), torch.tensor(act)] + drift * torch.randn(T)
    r = torch.full((T,), rng.uniform(-3, 3)) if const else torch.randn(T) * scale
    return rlt.PolicyGradientInput(state=st, action=torch.nn.functional.one_hot(torch.tensor(act), a), reward=r, log_prob=lp, possible_actions_mask=mask)


def ref_returns(rew, gamma, clip):
    r = [min(float(x), clip) for x in rew]
    return [sum(gamma ** (j - i) * r[j] for j in range(i, len(r))) if gamma else r[i] for i in range(len(r))]


def ref_whiten(x, sub):
    m = sum(x) / len(x)
    n = [v - m for v in x] if sub else list(x)
    sd = math.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - 1)) if len(x) > 1 else 0.0
    if sd <= 1e-6 * max(abs(v) for v in x):
        return n  # identical values carry no scale
    return [v / sd for v in n]


def advantages(tr, cfg, vnet):
    adv = ref_returns(tr.reward, cfg["gamma"], cfg["reward_clip"])
    if cfg["normalize"]:
        adv = ref_whiten(adv, cfg["subtract_mean"])
    if cfg["clamp_min"]:
        adv = [max(v, 0.0) for v in adv]
    target = torch.tensor(adv, dtype=torch.float)
    vloss = None
    if vnet is not None:
        base = vnet(tr.state).reshape(-1)
        vloss = ((base - target) ** 2).mean()
        target = target - base.detach()
    return target, vloss


def logp(scorer, tr, temp):
    lp = torch.log_softmax(scorer.score(tr.state, tr.possible_actions_mask) / temp, 1)
    return lp[torch.arange(len(lp)), tr.action.argmax(1)], lp


def params(m):
    return torch.cat([p.detach().reshape(-1) for p in m.parameters()]).clone()


def grad_of(loss, m):
    gs = torch.autograd.grad(loss, list(m.parameters()), allow_unused=True)
    return torch.cat([(torch.zeros_like(p) if g is None else g).reshape(-1) for g, p in zip(gs, m.parameters())])


def config(rng):
    use_v = rng.random() < 0.35
    return dict(gamma=rng.choice([0.0, 0.5, 0.9, 1.0]), reward_clip=rng.choice([1e6, 1.0]), normalize=False if use_v else rng.random() < 0.6, subtract_mean=rng.random() < 0.6,
                clamp_min=rng.random() < 0.25, vnet=use_v, temp=rng.choice([0.5, 1.0, 3.0]))


def step_matches(ctx, mech, before, after, grad):
    want = -LR * grad
    sc = max(1.0, float(grad.abs().max()))
    return ctx.close((after - before) / sc, want / sc, mech, rtol=3e-3, atol=3e-5)


def reinforce(ctx, k):
    rng = ctx.sub(f"rf{k}")
    ctx.seed_all(f"rf{k}")
    s, a = rng.randint(1, 3), rng.randint(2, 4)
    cfg = config(rng)
    off = rng.random() < 0.5
    clip = rng.choice([1e6, 40.0, 1.5, 1.0])
    freq = rng.choice([1, 1, 2, 3, 7])
    drift = rng.choice([1.0, 1.0, 1.0, 4.0])
    size = 3.0 * (rng.choice([1, 1, 1e-4, 1e4]) if cfg["normalize"] else rng.choice([1, 1, 1e-2, 10]))
    sc, vn = Scorer(s, a), VNet(s, 1) if cfg["vnet"] else None
    p = ReinforceParams(gamma=cfg["gamma"], optimizer=sgd(), optimizer_value_net=sgd(), off_policy=off, reward_clip=cfg["reward_clip"], clip_param=clip, normalize=cfg["normalize"],
                        subtract_mean=cfg["subtract_mean"], offset_clamp_min=cfg["clamp_min"], update_freq=freq)
    t = Reinforce(pt.SimpleNamespace(scorer=sc, sampler=SoftmaxActionSampler(cfg["temp"])), p, vn)
    pending, steps = [], []
    torch_opt(t.optimizer).register_step_post_hook(lambda *_: steps.append(1))
    with ctx.case("reinforce", dict(cfg=cfg, off=off, clip=clip, freq=freq, s=s, a=a), distinct=k):
        for i in range((3 if drift == 1.0 else 1) * freq + rng.randint(0, 2)):
            T = rng.choice([1, 2, 5, 9, rng.choice([9, 30, 70])])
            const = rng.random() < 0.15
            tr = traj(rng, T, s, a, sc, cfg["temp"], const=const, masks=rng.random() < 0.6, drift=drift if i < freq else 1.0, scale=size)
            ctx.saw("single_step_traj", T == 1)
            ctx.saw("constant_returns", const and T > 1)
            snap = snapshot(tr)
            b, bv = params(sc), params(vn) if vn is not None else None
            t.train(tr)
            ctx.expect(not same(snap, tr), "trajectory_is_not_modified", f"{same(snap, tr)}")
            aft, av = params(sc), params(vn) if vn is not None else None
            ctx.require(bool(torch.isfinite(aft).all()), "reinforce_update_is_finite", f"T={T}")
            pending.append(tr)
            moved = not torch.equal(b, aft) or (vn is not None and not torch.equal(bv, av))
            ctx.expect(len(steps) <= 1 and (bool(steps) or not moved), "reinforce_one_step_per_update", f"{len(steps)} steps")
            if steps:
                steps.clear()
                with torch.no_grad():  # evaluate the reference at the parameters before the update
                    torch.nn.utils.vector_to_parameters(b, sc.parameters())
                    if vn is not None:
                        torch.nn.utils.vector_to_parameters(bv, vn.parameters())
                losses, vlosses = [], []
                for x in pending:
                    adv, vl = advantages(x, cfg, vn)
                    lp, _ = logp(sc, x, cfg["temp"])
                    if off:
                        ratio = torch.exp(torch.clamp(lp - x.log_prob, max=math.log(clip)))
                        ctx.saw("reinforce_clipped", bool((lp - x.log_prob > math.log(clip)).any()))
                        lp = ratio
                    losses.append(-(adv * lp).sum())
                    vlosses.append(vl)
                g = grad_of(sum(losses) / len(losses), sc)
                ctx.saw("reinforce_update")
                ctx.saw("reinforce_offpolicy", off)
                ctx.saw("reinforce_multi", len(pending) > 1)
                step_matches(ctx, "reinforce_policy_gradient", b, aft, g)
                if vn is not None:
                    ctx.saw("reinforce_baseline")
                    gv = grad_of(sum(vlosses) / len(vlosses), vn)
                    step_matches(ctx, "reinforce_baseline_regresses_returns", bv, av, gv)
                with torch.no_grad():
                    torch.nn.utils.vector_to_parameters(aft, sc.parameters())
                    if vn is not None:
                        torch.nn.utils.vector_to_parameters(av, vn.parameters())
                pending = []
            ctx.require(len(pending) < freq or freq == 1 and not pending, "reinforce_updates_at_least_every_update_freq", f"{len(pending)} pending at update_freq {freq}")


def ppo(ctx, k):
    rng = ctx.sub(f"ppo{k}")
    ctx.seed_all(f"ppo{k}")
    s, a = rng.randint(1, 3), rng.randint(2, 4)
    cfg = config(rng)
    eps = rng.choice([0.0, 0.1, 0.2, 0.9, 0.97, 1.0])
    freq, epochs, mb = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 10])
    large = rng.random() < 0.08
    if large:  # many trajectories, or many passes over few
        freq, epochs, mb = rng.choice([(70, 1, 10), (40, 2, 40), (33, 1, 4), (2, 9, 2), (1, 12, 1)])
    size = 3.0 * (rng.choice([1, 1, 1e-4, 1e4]) if cfg["normalize"] else rng.choice([1, 1, 1e-2]))
    size = min(size, 0.2) if epochs > 4 and not cfg["normalize"] else size  # many passes at a large step diverge
    drifts = rng.choice([[0.05, 0.6], [0.05, 0.6], [0.6, 3.5]]) if epochs == 1 else [0.05, 0.6]
    ent = rng.choice([0.0, 0.0, 0.3, 1.0])
    sc, vn = Scorer(s, a), VNet(s, 1) if cfg["vnet"] else None
    t = PPOTrainer(policy=pt.SimpleNamespace(scorer=sc, sampler=SoftmaxActionSampler(cfg["temp"])), gamma=cfg["gamma"], optimizer=sgd(), optimizer_value_net=sgd(), reward_clip=cfg["reward_clip"],
                   normalize=cfg["normalize"], subtract_mean=cfg["subtract_mean"], offset_clamp_min=cfg["clamp_min"], update_freq=freq, update_epochs=epochs, ppo_batch_size=mb,
                   ppo_epsilon=eps, entropy_weight=ent, value_net=vn)
    rounds = rng.choice([1, 2]) if not large and drifts[1] < 1 else 1
    with ctx.case("ppo", dict(cfg=cfg, eps=eps, freq=freq, epochs=epochs, mb=mb, ent=ent, rounds=rounds), distinct=k):
        for rd in range(rounds):
            trs = []
            b, bv = params(sc), params(vn) if vn is not None else None
            for i in range(freq):
                T = rng.choice([1, 2, 4, 8]) if size < 10 else rng.choice([2, 4, 8])  # one step carries no scale
                const = rng.random() < 0.1
                tr = traj(rng, T, s, a, sc, cfg["temp"], const=const, masks=rng.random() < 0.6, drift=rng.choice(drifts), scale=size)
                ctx.saw("single_step_traj", T == 1)
                ctx.saw("constant_returns", const and T > 1)
                trs.append(tr)
                snaps = snapshot(tr)
                sc.log.clear()
                t.train(tr)
                ctx.expect(not same(snaps, tr), "trajectory_is_not_modified")
                if i < freq - 1:
                    ctx.require(torch.equal(b, params(sc)) and (vn is None or torch.equal(bv, params(vn))), "ppo_waits_for_a_full_buffer", f"updated after {i+1} of {freq}")
            aft, av = params(sc), params(vn) if vn is not None else None
            ctx.saw("ppo_second_round", rd > 0)
            ctx.require(bool(torch.isfinite(aft).all()), "ppo_update_is_finite")
            # which trajectories were consumed, in order
            def ident(feat):
                m = [j for j, x in enumerate(trs) if x.state.float_features.shape == feat.shape and torch.equal(x.state.float_features, feat)]
                return m[0] if m else None
            seq = [ident(f) for f, _ in sc.log]
            ctx.require(None not in seq, "ppo_forgets_previous_trajectories", f"a trajectory from an earlier buffer was used again (round {rd})")
            ctx.require(len(seq) == freq * epochs and all(sorted(seq[e * freq:(e + 1) * freq]) == list(range(freq)) for e in range(epochs)), "ppo_uses_each_trajectory_once_per_epoch", f"{seq} for {freq} trajectories x {epochs} epochs")
            ctx.saw("ppo_traj_use", len(seq))
            for (f, m), j in zip(sc.log, seq):
                ctx.expect((m is None) == (trs[j].possible_actions_mask is None) and (m is None or torch.equal(m, trs[j].possible_actions_mask)), "ppo_scores_with_the_trajectory_mask")
            # replay the whole update sequence from the state before it
            with torch.no_grad():
                torch.nn.utils.vector_to_parameters(b, sc.parameters())
                if vn is not None:
                    torch.nn.utils.vector_to_parameters(bv, vn.parameters())
            for e in range(epochs):
                order = seq[e * freq:(e + 1) * freq]
                for c in range(0, freq, mb):
                    ls, vls = [], []
                    for j in order[c:c + mb]:
                        x = trs[j]
                        adv, vl = advantages(x, cfg, vn)
                        lp, alllp = logp(sc, x, cfg["temp"])
                        ratio = torch.exp(lp - x.log_prob)
                        cl = torch.clamp(ratio, 1 - eps, 1 + eps)
                        ctx.saw("ppo_clipped", bool((cl != ratio).any()))
                        sur = torch.min((adv * ratio).sum(), (adv * cl).sum())
                        l = -sur
                        if ent:
                            H = -(alllp.exp() * torch.where(alllp < -1e8, torch.zeros_like(alllp), alllp)).sum(1).mean()
                            l = l - ent * H
                            ctx.saw("ppo_entropy")
                        ls.append(l)
                        vls.append(vl)
                    g = grad_of(sum(ls) / len(ls), sc)
                    gv = grad_of(sum(vls) / len(vls), vn) if vn is not None else None
                    with torch.no_grad():
                        torch.nn.utils.vector_to_parameters(params(sc) - LR * g, sc.parameters())
                        if vn is not None:
                            ctx.saw("ppo_baseline")
                            torch.nn.utils.vector_to_parameters(params(vn) - LR * gv, vn.parameters())
                    ctx.saw("ppo_step")
            want, wantv = params(sc), params(vn) if vn is not None else None
            with torch.no_grad():
                torch.nn.utils.vector_to_parameters(aft, sc.parameters())
                if vn is not None:
                    torch.nn.utils.vector_to_parameters(av, vn.parameters())
            moved = max(1.0, float((want - b).abs().max()))
            ctx.require(ctx.close((aft - b) / moved, (want - b) / moved, "ppo_parameters_follow_the_surrogate", rtol=5e-3, atol=2e-4), "ppo_round_consistent")
            if vn is not None:
                mv = max(1.0, float((wantv - bv).abs().max()))
                ctx.close((av - bv) / mv, (wantv - bv) / mv, "ppo_baseline_regresses_returns", rtol=5e-3, atol=2e-4)


def refusals(ctx):
    for name in ("reinforce", "ppo"):
        with ctx.case("baseline_with_normalize_refused", name):
            sc, vn = Scorer(2, 2), VNet(2, 1)
            rng = ctx.sub(name)
            pol = pt.SimpleNamespace(scorer=sc, sampler=SoftmaxActionSampler(1.0))
            t = Reinforce(pol, ReinforceParams(normalize=True), vn) if name == "reinforce" else PPOTrainer(policy=pol, normalize=True, value_net=vn, update_freq=1)
            b = params(sc)
            try:
                t.train(traj(rng, 3, 2, 2, sc, 1.0))
                ok = False
            except RuntimeError:
                ok = True
            ctx.expect(ok and torch.equal(b, params(sc)), "baseline_and_normalisation_refused_together")


def helpers(ctx, k):
    rng = ctx.sub(f"h{k}")
    ctx.seed_all(f"h{k}")
    T = rng.choice([1, 2, 3, 10, 50, rng.choice([300, 1200])])
    g = rng.choice([0.0, 0.3, 0.99, 1.0])
    dt = rng.choice([torch.float32, torch.float64])
    size = rng.choice([5, 5, 5, 1e-4, 1e4])
    x = (torch.randn(T) * size).to(dt)
    with ctx.case("discounted_returns", dict(T=T, gamma=g, dt=str(dt)), distinct=("r", k)):
        y = x.clone()
        ctx.saw("returns")
        ctx.close(discounted_returns(x, g), ref_returns(x, g, 1e18), "discounted_returns_definition", rtol=1e-4, atol=2e-5 * size * (1 + T / 100))
        ctx.expect(torch.equal(x, y), "helper_leaves_input_alone", "discounted_returns")
    sub = rng.random() < 0.5
    x = torch.full((T,), rng.uniform(-20, 20)) if rng.random() < 0.3 else torch.randn(T) * rng.choice([1e-2, 1, 1e3]) + rng.uniform(-2, 2)
    with ctx.case("whiten", dict(T=T, sub=sub), distinct=("w", k)):
        y = x.clone()
        ctx.saw("whiten")
        w = whiten(x, subtract_mean=sub)
        sc = max(1.0, float(x.abs().max()) / max(1e-9, float(y.std())) if T > 1 and float(y.std()) > 0 else float(x.abs().max()))
        ctx.close(w, ref_whiten([float(v) for v in y], sub), "whiten_definition", rtol=1e-3, atol=1e-4 * sc)
        ctx.expect(torch.equal(x, y), "helper_leaves_input_alone", "whiten")
        if sub and T > 1 and float(y.std()) > 1e-3:
            ctx.expect(abs(float(w.mean())) < 1e-3 and abs(float(w.std()) - 1) < 1e-3, "whitened_values_are_standard")
    L, A = rng.choice([(rng.randint(1, 4), rng.randint(1, 4))] * 5 + [(5, 4), (8, 2), (2, 13), (1, 40), (5, 6)])
    with ctx.case("gen_permutations", dict(L=L, A=A), distinct=("p", L, A)):
        p = gen_permutations(L, A)
        ctx.saw("permutations")
        ctx.require(tuple(p.shape) == (L, A ** L, A), "permutations_shape", f"{tuple(p.shape)}")
        ctx.expect(bool((p.sum(2) == 1).all()) and set(p.unique().tolist()) <= {0.0, 1.0}, "permutations_are_one_hot")
        seqs = {tuple(p[:, i].argmax(1).tolist()) for i in range(A ** L)}
        ctx.expect(len(seqs) == A ** L, "permutations_enumerate_every_sequence_once", f"{len(seqs)} of {A**L}")
    n, a = rng.randint(1, 5), rng.randint(1, 4)
    lo = torch.tensor([rng.uniform(-5, 0) for _ in range(a)])
    hi = lo + torch.tensor([rng.uniform(0.5, 6) for _ in range(a)])
    if rng.random() < 0.25:  # ranges of very different width, one end at zero so that no digits are lost
        lo = torch.zeros(a)
        hi = torch.tensor([rng.choice([1e-3, 1e-2, 1.0, 1e4]) for _ in range(a)])
    nlo = torch.tensor([rng.uniform(-5, 0) for _ in range(a)])
    nhi = nlo + torch.tensor([rng.choice([0.0, rng.uniform(0.5, 6)]) for _ in range(a)])
    u = torch.rand(n, a)
    with ctx.case("rescale_actions", dict(n=n, a=a), distinct=("s", k)):
        act = torch.min(torch.max(lo + u * (hi - lo), lo), hi)
        y = act.clone()
        r = rescale_actions(act, new_min=nlo, new_max=nhi, prev_min=lo, prev_max=hi)
        ctx.saw("rescale")
        ctx.close(r, nlo + (act - lo) / (hi - lo) * (nhi - nlo), "rescale_is_affine", rtol=1e-4, atol=1e-4)
        ctx.expect(torch.equal(act, y), "helper_leaves_input_alone", "rescale_actions")
        for bad in (dict(actions=act + 10 * (hi - lo)), dict(new_max=nlo - 1)):
            kw = dict(actions=act, new_min=nlo, new_max=nhi, prev_min=lo, prev_max=hi)
            kw.update(bad)
            try:
                rescale_actions(**kw)
                ok = False
            except AssertionError:
                ok = True
            ctx.expect(ok, "rescale_refuses_out_of_range", f"{list(bad)}")


def run(ctx):
    with ctx.part("helpers"):
        for k in range(ctx.n(150, 1200)):
            helpers(ctx, k)
    with ctx.part("reinforce"):
        for k in range(ctx.n(120, 1000)):
            reinforce(ctx, k)
    with ctx.part("ppo"):
        for k in range(ctx.n(120, 1000)):
            ppo(ctx, k)
    with ctx.part("refusals"):
        refusals(ctx)
