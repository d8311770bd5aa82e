"""T02: distributional targets conserve probability and project correctly."""
import vf.quiet  # noqa
import math

import numpy as np
import torch
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.qrdqn_trainer import QRDQNTrainer

from checks.T01 import discounts, rl_params, saw_mode
from vf.train import DistNet, QNet, attach, check_grad, dqn_batch, drive, is_soft, magnitude, opt_params, perturbed, same, snapshot

RULE = (
    "C51 and QR-DQN trainers are driven through training_step on random batches over random supports / quantile "
    "counts, rewards inside, at and far beyond the support, masks and terminals. The target distribution (triangular "
    "projection kernel) and the quantile-Huber loss are recomputed atom by atom in Python floats; loss and gradient "
    "must agree. Non-trivial: at least two actions and two atoms."
)
REQUIRED = {"c51": 60, "qr": 60, "terminal_row": 60, "clipped_atom": 200, "on_atom": 20, "masked_choice": 30, "multi_step": 10, "time_diff": 10, "clear_choice": 100, "mean_preserved": 10}


def choose(q_on, q_tg, al, double):
    src = q_on if double else q_tg
    order = sorted(al, key=lambda j: -src[j])
    clear = len(order) < 2 or src[order[0]] - src[order[1]] > 1e-4 * (1 + abs(src[order[0]]))
    return order[0], clear


def common(rng):
    n, s, a = rng.choice([1, 2, 5]), rng.randint(1, 4), rng.randint(2, 5) if rng.random() < 0.75 else rng.randint(6, 24)
    names = [f"a{i}" for i in range(a)]
    top = magnitude(rng)
    boost = {x: rng.uniform(-top, top) for x in rng.sample(names, rng.randint(1, a))} if rng.random() < 0.3 else None
    return n, s, a, names, boost, rl_params(rng, reward_boost=boost), rng.random() < 0.5


def c51(ctx, k):
    rng = ctx.sub(f"c51{k}")
    ctx.seed_all(f"c51{k}")
    n, s, a, names, boost, rl, double = common(rng)
    N = rng.choice([2, 3, 5, 11, 51, rng.randint(2, 101)])
    mode = rng.choice(["int", "frac", "frac", "default", "wide"])
    if mode == "int":
        lo = rng.randint(-10, 0)
        hi = lo + (N - 1) * rng.randint(1, 3)
    elif mode == "frac":
        lo = round(rng.uniform(-100, 5), 2)
        hi = round(lo + rng.uniform(0.5, 200), 2)
    elif mode == "wide":
        lo = -rng.choice([0, 1, 5, 20]) * 1000
        hi = lo + rng.choice([8, 40]) * 1000
    else:
        lo, hi = -100, 200
    delta = (hi - lo) / (N - 1)
    q = DistNet(s, a, N, scale=rng.choice([2.0, 2.0, 40.0]))
    qt = perturbed(q)
    t = C51Trainer(q_network=q, q_network_target=qt, actions=names, rl=rl, double_q_learning=double, num_atoms=N, qmin=lo, qmax=hi)
    attach(t)
    batch = dqn_batch(rng, n, s, a, wide=True)
    for i in range(n):
        c = rng.random()
        if c < 0.25:
            batch.reward[i] = rng.choice([lo * 3 - 50, hi * 3 + 50, lo, hi])
        elif c < 0.6:
            batch.reward[i] = lo + delta * rng.randrange(N)
        else:
            batch.reward[i] = rng.uniform(lo, hi)
    snap = snapshot(batch)
    with ctx.case("c51", dict(n=n, a=a, N=N, lo=lo, hi=hi, rl=str(rl), double=double), distinct=k):
        z = [lo + delta * i for i in range(N)]
        d_on, d_tg = q.log_dist(batch.next_state).exp().detach().double().numpy(), qt.log_dist(batch.next_state).exp().detach().double().numpy()
        disc = discounts(rl, batch, n)
        m = np.zeros((n, N))
        clear_all = True
        for i in range(n):
            r = float(batch.reward[i]) + (boost or {}).get(names[int(batch.action[i].argmax())], 0.0)
            nt = float(batch.not_terminal[i])
            if rl.maxq_learning:
                al = [j for j in range(a) if batch.possible_next_actions_mask[i, j] > 0]
                qs_on, qs_tg = d_on[i] @ z, d_tg[i] @ z
                b, clear = choose(qs_on, qs_tg, al, double)
                free, _ = choose(qs_on, qs_tg, range(a), double)
                ctx.saw("masked_choice", b != free)
                ctx.saw("clear_choice", clear)
                if nt > 0:
                    clear_all &= clear
            else:
                al = [j for j in range(a) if batch.next_action[i, j] > 0]
                b = al[0] if al else None
            if nt == 0 and b is None:
                b = -1
            # a terminal step puts all its mass at the reward whatever the next state holds
            p = d_tg[i][b] if b >= 0 else np.full(N, 1.0 / N)
            if nt == 0 and not rl.maxq_learning:
                p = np.full(N, 1.0 / N)
            inside = True
            for x in range(N):
                tz = r + nt * disc[i] * z[x]
                if tz < lo or tz > hi:
                    ctx.saw("clipped_atom")
                    inside = False
                tz = min(max(tz, lo), hi)
                pos = (tz - lo) / delta
                if abs(pos - round(pos)) < 1e-9:
                    ctx.saw("on_atom")
                    m[i][int(round(pos))] += p[x]
                else:
                    m[i][int(math.floor(pos))] += p[x] * (math.ceil(pos) - pos)
                    m[i][int(math.ceil(pos))] += p[x] * (pos - math.floor(pos))
            assert abs(m[i].sum() - 1) < 1e-6
            if inside:  # self-check of the oracle: projection preserves the mean inside the support
                ctx.saw("mean_preserved")
                assert abs(m[i] @ z - sum(pp * (r + nt * disc[i] * zz) for pp, zz in zip(p, z))) < 1e-5 * (1 + abs(lo) + abs(hi))
        saw_mode(ctx, rl, batch.not_terminal)
        ld = q.log_dist(batch.state)[torch.arange(n), batch.action.argmax(1)]
        ref = -(torch.tensor(m).float() * ld).sum(1).mean()
        # float32 positions on a wide support carry an error of about 1e-6 * |bound| / delta
        tol = 1e-3 + 3e-6 * (abs(lo) + abs(hi) + float(batch.reward.abs().max())) / delta
        opts = t.configure_optimizers()

        def on_loss(i, o, loss, grads):
            if i == 0 and clear_all:
                ctx.saw("c51")
                ctx.close(loss, ref, "c51_loss_is_projection_cross_entropy", rtol=tol, atol=tol)
                check_grad(ctx, "c51_gradient_only_through_logged_action", grads, ref, list(q.parameters()), rtol=5 * tol, atol=5 * tol)
            ctx.expect(is_soft(o) == (i == 1), "soft_update_comes_last", f"{i}")

        drive(t, batch, 0, opts, on_loss)
        ctx.expect(not same(snap, batch), "batch_is_not_modified", f"changed: {same(snap, batch)}")


def qr(ctx, k):
    rng = ctx.sub(f"qr{k}")
    ctx.seed_all(f"qr{k}")
    n, s, a, names, boost, rl, double = common(rng)
    N = rng.choice([1, 2, 3, 8, 21])
    q = DistNet(s, a, N, scale=rng.choice([1.0, 8.0, 8.0, 3e3]))
    qt = perturbed(q)
    cpe = rng.random() < 0.4
    kw = {}
    if cpe:
        qc = QNet(s, a)
        kw = dict(reward_network=QNet(s, a), q_network_cpe=qc, q_network_cpe_target=perturbed(qc))
    t = QRDQNTrainer(q_network=q, q_network_target=qt, actions=names, rl=rl, double_q_learning=double, num_atoms=N, evaluation=EvaluationParameters(calc_cpe_in_training=cpe), **kw)
    rep = attach(t)
    batch = dqn_batch(rng, n, s, a, wide=True)
    snap = snapshot(batch)
    with ctx.case("qrdqn", dict(n=n, a=a, N=N, rl=str(rl), double=double, cpe=cpe), distinct=k):
        on, tg = q(batch.next_state).detach().double().numpy(), qt(batch.next_state).detach().double().numpy()
        disc = discounts(rl, batch, n)
        T = np.zeros((n, N))
        clear_all = True
        for i in range(n):
            r = float(batch.reward[i]) + (boost or {}).get(names[int(batch.action[i].argmax())], 0.0)
            nt = float(batch.not_terminal[i])
            row = np.zeros(N)
            if nt > 0:
                if rl.maxq_learning:
                    al = [j for j in range(a) if batch.possible_next_actions_mask[i, j] > 0]
                    b, clear = choose(on[i].mean(1), tg[i].mean(1), al, double)
                    ctx.saw("masked_choice", b != choose(on[i].mean(1), tg[i].mean(1), range(a), double)[0])
                    clear_all &= clear
                    ctx.saw("clear_choice", clear)
                else:
                    b = int(batch.next_action[i].argmax())
                row = disc[i] * tg[i][b]
            T[i] = r + row
        saw_mode(ctx, rl, batch.not_terminal)
        cur = q(batch.state)[torch.arange(n), batch.action.argmax(1)]
        tot = 0.0
        for i in range(n):
            for j in range(N):
                tau = (j + 0.5) / N
                for l in range(N):
                    u = float(T[i, l]) - cur[i, j]
                    h = 0.5 * u * u if abs(float(u)) < 1 else u.abs() - 0.5
                    tot = tot + abs(tau - (1.0 if float(u) < 0 else 0.0)) * h
        ref = tot / (n * N * N)
        opts = t.configure_optimizers()

        def on_loss(i, o, loss, grads):
            if i == 0 and clear_all:
                ctx.saw("qr")
                ctx.close(loss, ref, "quantile_huber_loss", rtol=1e-3, atol=1e-4)
                check_grad(ctx, "quantile_gradient_only_through_logged_action", grads, ref, list(q.parameters()), rtol=3e-3, atol=3e-4)
            elif cpe and i in (1, 2):
                owner = [nm for nm, net in (("reward", t.reward_network), ("cpe", t.q_network_cpe)) if {id(p) for p in opt_params(o)} == {id(p) for p in net.parameters()}]
                live = []
                for nm, net in (("reward", t.reward_network), ("cpe", t.q_network_cpe)):
                    ps = [p for p in net.parameters() if p.requires_grad]
                    if ps and loss.requires_grad and any(g is not None and bool((g != 0).any()) for g in torch.autograd.grad(loss, ps, retain_graph=True, allow_unused=True)):
                        live.append(nm)
                ctx.expect(loss.requires_grad and live == owner, "qrdqn_cpe_loss_meets_its_optimizer", f"optimizer {i} owns {owner}, its loss trains {live}")
            ctx.expect(is_soft(o) == (i == len(opts) - 1), "soft_update_comes_last", f"{i}")

        drive(t, batch, 0, opts, on_loss)
        ctx.expect(not same(snap, batch), "batch_is_not_modified", f"changed: {same(snap, batch)}")
        ctx.close(rep.last("model_values"), q(batch.state).detach().mean(2), "qr_reported_values_are_quantile_means")


def head(ctx, k):
    rng = ctx.sub(f"head{k}")
    ctx.seed_all(f"head{k}")
    n, s, a, N = rng.choice([1, 4]), 3, rng.randint(2, 4), rng.randint(2, 30)
    lo = rng.uniform(-50, 0)
    hi = lo + rng.uniform(1, 80)
    inner = DistNet(s, a, N, scale=4.0)
    from vf.train import feats

    x = feats(n, s)
    with ctx.case("categorical_head", dict(n=n, a=a, N=N), distinct=k):
        net = CategoricalDQN(inner, qmin=lo, qmax=hi, num_atoms=N)
        p = net.log_dist(x).exp().detach().double().numpy()
        ctx.close(p.sum(-1), np.ones((n, a)), "categorical_distribution_normalised")
        z = np.linspace(lo, hi, N)
        ctx.close(p, torch.softmax(inner(x).double(), -1), "categorical_distribution_is_softmax_of_logits")
        ctx.close(net(x), p @ z, "categorical_value_is_mean_over_support", rtol=1e-4, atol=1e-3)


def run(ctx):
    with ctx.part("c51"):
        for k in range(ctx.n(150, 1500)):
            c51(ctx, k)
    with ctx.part("qrdqn"):
        for k in range(ctx.n(130, 1000)):
            qr(ctx, k)
    with ctx.part("head"):
        for k in range(ctx.n(40, 300)):
            head(ctx, k)
