"""T01: DQN-family learners regress to the declared Bellman target."""
import vf.quiet  # noqa
import numpy as np
import torch
import reagent.types as rlt
from reagent.optimizer import Optimizer__Union
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.slate_q_trainer import SlateQTrainer

from vf.train import (CriticNet, Mlp, QNet, attach, check_grad, dqn_batch, drive, feats, is_soft, magnitude, not_terminal,
                      one_hot, opt_params, perturbed, same, snapshot, steps, value)

RULE = (
    "A trainer is built with small random networks owned by the harness and driven on random batches through "
    "training_step, optimizer by optimizer, as Lightning does. For every row the Bellman target is recomputed in "
    "Python floats from the networks' own outputs and the batch; the yielded loss and its gradient over the "
    "optimizer's parameters must equal those of regressing q(s,a) to that target. Non-trivial: at least two actions."
)
REQUIRED = {"td_loss": 150, "td_grad": 150, "terminal_row": 100, "masked_choice": 60, "multi_step": 20, "time_diff": 20, "bcq": 12, "cpe_loss": 30, "slate": 40, "parametric": 60, "boosted": 30}


def rl_params(rng, **kw):
    mode = rng.choice(["plain", "multi", "time"])
    d = dict(gamma=rng.choice([0.0, 0.5, 0.9, 0.99, 1.0]), maxq_learning=rng.random() < 0.65, q_network_loss=rng.choice(["mse", "huber"]),
             temperature=rng.choice([0.1, 1.0, 3.0]), target_update_rate=rng.choice([0.1, 0.5]))
    if mode == "multi":
        d["multi_steps"] = rng.randint(2, 5)
    elif mode == "time":
        d["use_seq_num_diff_as_time_diff"] = True
    d.update(kw)
    return RLParameters(**d)


def discounts(rl, batch, n):
    if rl.multi_steps is not None:
        return [rl.gamma ** int(batch.step[i]) for i in range(n)]
    if rl.use_seq_num_diff_as_time_diff:
        return [rl.gamma ** int(batch.time_diff[i]) for i in range(n)]
    return [rl.gamma] * n


def pick(q_on, q_tg, allowed, double):
    """Value of the action the declared rule chooses among the allowed ones."""
    src = q_on if double else q_tg
    best = max(allowed, key=lambda a: src[a])
    return q_tg[best], best


def loss_fn(kind):
    def f(d):
        if kind == "mse":
            return d * d
        a = d.abs()
        return torch.where(a < 1, 0.5 * d * d, a - 0.5)
    return f


def saw_mode(ctx, rl, nt):
    ctx.saw("multi_step", rl.multi_steps is not None)
    ctx.saw("time_diff", bool(rl.use_seq_num_diff_as_time_diff))
    ctx.saw("terminal_row", int((nt == 0).sum()))


def softmax_masked(scores, mask, t):
    out = np.zeros(len(scores))
    on = [i for i in range(len(scores)) if mask[i] > 0]
    if not on:
        return out
    z = np.array([scores[i] / t for i in on])
    z = np.exp(z - z.max())
    out[on] = z / z.sum()
    return out


def dqn(ctx, k):
    rng = ctx.sub(f"dqn{k}")
    ctx.seed_all(f"dqn{k}")
    n, s, a = rng.choice([1, 2, 5, 9, 33]), rng.randint(1, 4), rng.randint(2, 6) if rng.random() < 0.75 else rng.randint(7, 24)
    names = [f"act{i}" for i in range(a)]
    top = magnitude(rng, 5.0)
    boost = {x: rng.uniform(-top, top) for x in rng.sample(names, rng.randint(1, a))} if rng.random() < 0.4 else None
    rl = rl_params(rng, reward_boost=boost)
    double = rng.random() < 0.5
    use_bcq = rng.random() < 0.25
    nm = rng.choice([0, 0, 2])
    cpe = rng.random() < 0.4
    scale = rng.choice([1.0, 20.0, 20.0, 3e3, 2e5])
    q = QNet(s, a, scale=scale)
    qt = perturbed(q)
    n_out = a * (1 + nm)
    kw = {}
    if cpe:
        qc = QNet(s, n_out)
        kw = dict(reward_network=QNet(s, n_out), q_network_cpe=qc, q_network_cpe_target=perturbed(qc), metrics_to_score=[f"m{i}" for i in range(nm)] or None)
    imit = Mlp(s, a, scale=3.0) if use_bcq else None
    drop = rng.choice([0.05, 0.3, 0.7])
    t = DQNTrainer(q_network=q, q_network_target=qt, reward_network=kw.pop("reward_network", None), actions=names, rl=rl, double_q_learning=double,
                   bcq=BCQConfig(drop_threshold=drop) if use_bcq else None, imitator=imit,
                   evaluation=EvaluationParameters(calc_cpe_in_training=cpe), **kw)
    rep = attach(t)
    batch = dqn_batch(rng, n, s, a, metrics=nm if cpe else 0, wide=True)
    snap = snapshot(batch)
    desc = dict(n=n, a=a, rl=str(rl), double=double, bcq=use_bcq, cpe=cpe, nm=nm)
    with ctx.case("dqn", desc, distinct=(k, str(desc))):
        qn_on, qn_tg, q_tg_cpe = value(q(batch.next_state)), value(qt(batch.next_state)), value(t.q_network_cpe_target(batch.next_state)) if cpe else None
        disc = discounts(rl, batch, n)
        allowed_next = []
        for i in range(n):
            if rl.maxq_learning:
                al = [j for j in range(a) if snap[".possible_next_actions_mask"][i, j] > 0]
                if use_bcq:
                    p = torch.softmax(imit(batch.next_state.float_features[i : i + 1]), 1)[0]
                    keep = [j for j in al if float(p[j] / p.max()) >= drop]
                    near = any(abs(float(p[j] / p.max()) - drop) < 1e-4 for j in al)
                    if not keep or near:
                        keep = None  # nothing allowed by both: outside the property
                    al = keep
            else:
                al = [j for j in range(a) if snap[".next_action"][i, j] > 0]
            allowed_next.append(al)
        targets, undecided = [], False
        for i in range(n):
            r = float(batch.reward[i]) + (boost or {}).get(names[int(batch.action[i].argmax())], 0.0)
            v = 0.0
            if float(batch.not_terminal[i]) > 0:
                if not allowed_next[i]:
                    undecided = True
                else:
                    v, _ = pick(qn_on[i], qn_tg[i], allowed_next[i], double)
                    free, _ = pick(qn_on[i], qn_tg[i], range(a), double)
                    ctx.saw("masked_choice", v != free)
            targets.append(r + disc[i] * v)
        opts = t.configure_optimizers()
        f = loss_fn(rl.q_network_loss)
        saw_mode(ctx, rl, batch.not_terminal)
        ctx.saw("boosted", boost is not None)
        ctx.saw("bcq", use_bcq)
        act = batch.action.argmax(1)

        def on_loss(i, o, loss, grads):
            if i == 0 and not undecided:
                ref = f(q(batch.state)[torch.arange(n), act] - torch.tensor(targets).float()).mean()
                ctx.saw("td_loss")
                ctx.close(loss, ref, "td_loss_is_bellman_regression", rtol=1e-4, atol=1e-5)
                ctx.saw("td_grad")
                check_grad(ctx, "td_gradient_only_through_q_of_logged_action", grads, ref, list(q.parameters()))
            elif cpe and i == 1:
                rn = t.reward_network
                cols = torch.stack([rn(batch.state)[torch.arange(n), act + a * m] for m in range(nm + 1)], 1)
                real = batch.reward if not nm else torch.cat([batch.reward, batch.extras.metrics], 1)
                ctx.saw("cpe_loss")
                ref = ((cols - real) ** 2).mean()
                ctx.close(loss, ref, "cpe_reward_network_regresses_to_logged_reward_and_metrics")
                ctx.expect({id(p) for p in opt_params(o)} == {id(p) for p in rn.parameters()}, "cpe_reward_loss_meets_reward_optimizer", "reward loss given to another network's optimizer")
                check_grad(ctx, "cpe_reward_gradient", grads, ref, list(rn.parameters()))
            elif cpe and i == 2:
                qc = t.q_network_cpe
                real = batch.reward if not nm else torch.cat([batch.reward, batch.extras.metrics], 1)
                tot = []
                for row in range(n):
                    msk = snap[".possible_next_actions_mask"][row] if rl.maxq_learning else snap[".next_action"][row]
                    pi = softmax_masked(qn_on[row], msk.numpy(), rl.temperature)
                    tot.append([float(real[row, m]) + disc[row] * float(batch.not_terminal[row]) * float((pi * q_tg_cpe[row][m * a : (m + 1) * a]).sum()) for m in range(nm + 1)])
                cols = torch.stack([qc(batch.state)[torch.arange(n), act + a * m] for m in range(nm + 1)], 1)
                ref = f(cols - torch.tensor(tot).float()).mean()
                ctx.saw("cpe_loss")
                ctx.close(loss, ref, "cpe_metric_q_regresses_to_expected_target", rtol=3e-4, atol=1e-4)
                check_grad(ctx, "cpe_metric_q_gradient", grads, ref, list(qc.parameters()))
            ctx.expect(is_soft(o) == (i == len(opts) - 1), "soft_update_comes_last", f"{i}")

        drive(t, batch, 0, opts, on_loss)
        ctx.expect(not same(snap, batch), "batch_is_not_modified", f"changed: {same(snap, batch)}")
        # what is reported is what happened
        mv = rep.last("model_values")
        ctx.close(mv, q(batch.state).detach(), "reported_model_values_are_q_of_state")
        ctx.close(rep.last("logged_actions").reshape(-1), act, "reported_actions_are_logged_actions")
        idx = rep.last("model_action_idxs").reshape(-1)
        qs = value(q(batch.state))
        for i in range(n):
            if not rl.maxq_learning:
                want = int(act[i])
            elif use_bcq:
                continue
            else:
                want = max((j for j in range(a) if snap[".possible_actions_mask"][i, j] > 0), key=lambda j: qs[i][j])
            ctx.expect(int(idx[i]) == want, "reported_greedy_action_is_best_allowed", f"row {i}: {int(idx[i])} want {want}")


def parametric(ctx, k):
    rng = ctx.sub(f"par{k}")
    ctx.seed_all(f"par{k}")
    n, s, ad, m = rng.choice([1, 2, 6, 20]), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(6, 15)
    rl = rl_params(rng)
    double = rng.random() < 0.5
    nm = rng.choice([0, 0, 2])
    q = CriticNet(s, ad, scale=rng.choice([1.0, 10.0, 10.0, 1e4]))
    qt = perturbed(q)
    rn = CriticNet(s, ad, o=1 + nm)
    t = ParametricDQNTrainer(q_network=q, q_network_target=qt, reward_network=rn, rl=rl, double_q_learning=double)
    attach(t)
    nt = not_terminal(rng, n)
    pnm = torch.zeros(n, m)
    for i in range(n):
        for j in range(m):
            pnm[i, j] = float(rng.random() < 0.6)
        pnm[i, rng.randrange(m)] = 1.0
    pna = feats(n * m, ad)
    batch = rlt.ParametricDqnInput(
        state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1) * magnitude(rng), time_diff=steps(rng, n, 6),
        step=steps(rng, n, 5), not_terminal=nt, action=feats(n, ad), next_action=feats(n, ad),
        possible_actions=feats(n * m, ad), possible_actions_mask=torch.ones(n, m), possible_next_actions=pna, possible_next_actions_mask=pnm,
        extras=rlt.ExtraData(metrics=torch.randn(n, nm) if nm else None))
    snap = snapshot(batch)
    with ctx.case("parametric", dict(n=n, m=m, rl=str(rl), double=double, nm=nm), distinct=k):
        disc = discounts(rl, batch, n)
        targets = []
        for i in range(n):
            ns = batch.next_state.float_features[i : i + 1]
            val = lambda net, av: float(net(rlt.FeatureData(ns), rlt.FeatureData(av)))
            if rl.maxq_learning:
                on = [val(q, pna.float_features[i * m + j : i * m + j + 1]) for j in range(m)]
                tg = [val(qt, pna.float_features[i * m + j : i * m + j + 1]) for j in range(m)]
                al = [j for j in range(m) if pnm[i, j] > 0]
                v, _ = pick(on, tg, al, double)
                ctx.saw("masked_choice", v != pick(on, tg, range(m), double)[0])
            else:
                v = val(qt, batch.next_action.float_features[i : i + 1])
            targets.append(float(batch.reward[i]) + float(nt[i]) * disc[i] * v)
        saw_mode(ctx, rl, nt)
        f = loss_fn(rl.q_network_loss)
        opts = t.configure_optimizers()

        def on_loss(i, o, loss, grads):
            if i == 0:
                ref = f(q(batch.state, batch.action)[:, 0] - torch.tensor(targets).float()).mean()
                ctx.saw("td_loss")
                ctx.saw("parametric")
                ctx.saw("td_grad")
                ctx.close(loss, ref, "parametric_td_loss_is_bellman_regression")
                check_grad(ctx, "parametric_td_gradient", grads, ref, list(q.parameters()))
            elif i == 1:
                real = batch.reward if not nm else torch.cat([batch.reward, batch.extras.metrics], 1)
                ref = ((rn(batch.state, batch.action) - real) ** 2).mean()
                ctx.close(loss, ref, "parametric_reward_network_regresses_to_logged_reward")
                check_grad(ctx, "parametric_reward_gradient", grads, ref, list(rn.parameters()))
            ctx.expect(is_soft(o) == (i == 2), "soft_update_comes_last", f"{i}")

        drive(t, batch, 0, opts, on_loss)
        ctx.expect(not same(snap, batch), "batch_is_not_modified", f"changed: {same(snap, batch)}")


def slate(ctx, k):
    rng = ctx.sub(f"slate{k}")
    ctx.seed_all(f"slate{k}")
    n, s, d, c = rng.choice([1, 2, 5, 17]), rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 6) if rng.random() < 0.8 else rng.randint(7, 16)
    span, off, size = rng.choice([2, 2, 60]), rng.choice([0, 0, -30]), magnitude(rng, 2.0)
    sl = rng.randint(1, c)
    single = rng.random() < 0.6
    rl = RLParameters(gamma=rng.choice([0.0, 0.5, 0.9, 1.0]), maxq_learning=False)
    q = CriticNet(s, d, scale=3.0)
    qt = perturbed(q)
    t = SlateQTrainer(q_network=q, q_network_target=qt, rl=rl, single_selection=single, optimizer=Optimizer__Union.default())
    attach(t)
    nt = not_terminal(rng, n)

    def st():
        return rlt.FeatureData(torch.randn(n, s), candidate_docs=rlt.DocList(float_features=torch.randn(n, c, d), mask=torch.ones(n, c, dtype=torch.bool), value=torch.rand(n, c) * span + off))

    act = torch.tensor([rng.sample(range(c), sl) for _ in range(n)])
    nact = torch.tensor([rng.sample(range(c), sl) for _ in range(n)])
    for i in range(n):
        if nt[i] == 0:
            nact[i] = c  # the replay inserter marks the missing next slate with an out-of-range index
    rmask = torch.zeros(n, sl, dtype=torch.bool)
    for i in range(n):
        if single:
            if rng.random() < 0.8:
                rmask[i, rng.randrange(sl)] = True
        else:
            rmask[i] = True
    if not rmask.any():
        rmask[0, 0] = True
    batch = rlt.SlateQInput(state=st(), next_state=st(), reward=torch.randn(n, sl) * rmask.float() * size, time_diff=torch.ones(n, 1), step=torch.ones(n, 1),
                            not_terminal=nt, action=act, next_action=nact, reward_mask=rmask, extras=rlt.ExtraData())
    snap = snapshot(batch)
    act0, nact0 = act.clone(), nact.clone()
    with ctx.case("slate_q", dict(n=n, c=c, sl=sl, single=single, rl=str(rl)), distinct=k):
        tg, preds = [], []
        for i in range(n):
            v = 0.0
            if nt[i] > 0:
                docs = batch.next_state.candidate_docs.float_features[i, nact0[i]]
                vals = batch.next_state.candidate_docs.value[i, nact0[i]]
                qv = qt(rlt.FeatureData(batch.next_state.float_features[i : i + 1].repeat(sl, 1)), rlt.FeatureData(docs))[:, 0].detach()
                w = torch.softmax(vals, 0) if single else vals
                v = float((qv * w).sum())
                if not single:
                    v /= sl
            ctx.saw("terminal_row", int(nt[i] == 0))
            for j in range(sl):
                if single and not rmask[i, j]:
                    continue
                tg.append(float(batch.reward[i, j]) + rl.gamma * v)
                preds.append(q(rlt.FeatureData(batch.state.float_features[i : i + 1]), rlt.FeatureData(batch.state.candidate_docs.float_features[i, act0[i, j]].reshape(1, -1)))[0, 0])
        ref = ((torch.stack(preds) - torch.tensor(tg).float()) ** 2).mean()
        opts = t.configure_optimizers()

        def on_loss(i, o, loss, grads):
            if i == 0:
                ctx.saw("slate")
                ctx.close(loss, ref, "slate_q_loss_is_bellman_regression")
                check_grad(ctx, "slate_q_gradient", grads, ref, list(q.parameters()))

        drive(t, batch, 0, opts, on_loss)
        ctx.expect(not same(snap, batch), "slate_batch_is_not_modified", f"changed: {same(snap, batch)}")


def run(ctx):
    with ctx.part("dqn"):
        for k in range(ctx.n(160, 1500)):
            dqn(ctx, k)
    with ctx.part("parametric"):
        for k in range(ctx.n(120, 1000)):
            parametric(ctx, k)
    with ctx.part("slate"):
        for k in range(ctx.n(100, 800)):
            slate(ctx, k)
