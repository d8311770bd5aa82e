"""E05: evaluation pages are assembled without loss, reordering or leakage."""
import copy
import vf.quiet  # noqa
import types

import numpy as np
import reagent.types as rlt
import torch
import torch.nn as nn
from reagent.core.observers import ValueListObserver  # noqa
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.optimizer import Optimizer__Union
from reagent.optimizer.union import classes
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer

from vf.slates import make_net, slate_batch
from vf.train import CriticNet, DistNet, LogitActor, QNet, Reporter, perturbed

RULE = (
    "Random logs of episodes with arbitrary ids and gapped step numbers, shuffled over batches of every size, are turned into evaluation "
    "pages directly (every column a known function of the row), through DQN, QR-DQN, CRR and parametric trainers (0-3 metrics, reward "
    "boosts, action masks, networks with dropout) and through the sequence ranker. Every row must come out exactly once, aligned in all "
    "columns, ordered by episode and step, with model columns equal to the networks applied to that row alone in inference mode, "
    "propensities equal to the masked softmax, logged values equal to discounted returns-to-go over the step gaps (each metric too); "
    "appending is concatenation, inputs are never altered, inconsistent pages are refused, and the trainers' evaluation epoch scores "
    "exactly that page."
)
REQUIRED = {"rows": 500, "pages": 60, "appends": 60, "gaps": 100, "metric_columns": 40, "trainer_pages": 30, "epochs": 15, "parametric": 12, "slates": 12, "refused": 80, "accepted": 60, "masked_actions": 60}

FIELDS = EvaluationDataPage._fields


def log(r, min_rows=1):
    """(id, step) pairs in shuffled order, cut into batches"""
    n = int(r.integers(1, 7))
    ids = r.permutation(60)[:n] - int(r.integers(0, 3)) * 10
    rows = []
    for m in ids:
        s = int(r.integers(-1, 4))
        for _ in range(int(r.integers(1, 7))):
            rows.append((int(m), s))
            s += 1 if r.random() < 0.6 else int(r.integers(1, 5))
    k = r.random()
    if k < 0.7:
        rows = [rows[i] for i in r.permutation(len(rows))]
    elif k < 0.85:
        rows = rows[::-1]
    cuts = sorted(int(x) for x in r.integers(1, max(len(rows), 2), size=int(r.integers(0, 4))))
    edges = sorted(set([0] + [c for c in cuts if c < len(rows)] + [len(rows)]))
    return rows, [rows[a:b] for a, b in zip(edges, edges[1:])]


def tagged(r, rows, offset, A, M, absent, names=False):
    """a page whose every cell tells the row and column it belongs to"""
    base = (torch.arange(len(rows)) + offset).float().reshape(-1, 1) * 1000
    col = {}
    for f, name in enumerate(FIELDS):
        w = {"logged_metrics": M, "logged_metrics_values": M, "model_metrics": M * A, "model_metrics_values": M * A, "model_metrics_for_logged_action": M, "model_metrics_values_for_logged_action": M,
             "action_mask": A, "model_propensities": A, "model_rewards": A, "model_values": A, "possible_actions_mask": A, "optimal_q_values": A, "contexts": 3, "possible_actions_state_concat": 2}.get(name, 1)
        col[name] = None if name in absent or w == 0 else base + f * 20 + torch.arange(w).float()
    col["mdp_id"] = torch.tensor([m for m, _ in rows]).reshape(-1, 1)
    if names:  # episodes known by name travel as arrays of strings, in the order of their names
        col["mdp_id"] = np.array([f"mdp{2000 + m}" for m, _ in rows]).reshape(-1, 1)
    col["sequence_number"] = torch.tensor([s for _, s in rows]).reshape(-1, 1)
    return EvaluationDataPage(**col)


def returns(rows, x, gamma):
    """discounted return-to-go of each row, in row order"""
    x = x.double().numpy()
    out = np.zeros_like(x)
    for i, (m, s) in enumerate(rows):
        for j, (m2, s2) in enumerate(rows):
            if m2 == m and s2 >= s:
                out[i] += float(gamma) ** (s2 - s) * x[j]
    return out


def same_page(ctx, got, want, mech):
    for f in FIELDS:
        g, w = getattr(got, f), getattr(want, f)
        ok = (g is None) == (w is None) and (g is None or (g.shape == w.shape and g.dtype == w.dtype and (np.array_equal(g, w) if isinstance(w, np.ndarray) else torch.equal(g, w))))
        ctx.expect(ok, f"{mech}:{f}", f"{g} want {w}")


def copy_page(p):
    return EvaluationDataPage(**{f: None if getattr(p, f) is None else copy.deepcopy(getattr(p, f)) for f in FIELDS})


def refused(ctx, f, mech):
    ctx.saw("refused")
    try:
        f()
    except (AssertionError, IndexError, RuntimeError):
        return
    ctx.expect(False, mech, "accepted")


def pages(ctx, r, i):
    rows, batches = log(r)
    A, M = int(r.integers(1, 5)), int(r.choice([0, 1, 2, 3]))
    gamma = float(r.choice([0.0, 0.5, 0.9, 0.99, 1.0]))
    optional = [f for f in FIELDS if f not in ("mdp_id", "sequence_number", "logged_propensities", "logged_rewards", "action_mask", "model_propensities", "model_rewards", "model_rewards_for_logged_action", "model_values", "model_metrics", "model_metrics_values", "logged_metrics")]
    absent = {f for f in optional if r.random() < 0.4} | {"logged_values", "logged_metrics_values"}
    names = r.random() < 0.3
    with ctx.case("page", f"names={names} rows={rows} batches={[len(b) for b in batches]} A={A} M={M} gamma={gamma}", distinct=f"p{i}", trivial=len(rows) < 2):
        ctx.saw("pages")
        ctx.saw("named_pages", int(names))
        ctx.saw("rows", len(rows))
        parts, o = [], 0
        for b in batches:
            parts.append(tagged(r, b, o, A, M, absent, names))
            o += len(b)
        whole = tagged(r, rows, 0, A, M, absent, names)
        page = parts[0]
        for p in parts[1:]:
            keep = copy_page(page), copy_page(p)
            new = page.append(p)
            ctx.saw("appends")
            same_page(ctx, page, keep[0], "append-altered-input")
            same_page(ctx, p, keep[1], "append-altered-input")
            page = new
        same_page(ctx, page, whole, "append-is-concatenation")
        keep = copy_page(page)
        s = page.sort()
        same_page(ctx, page, keep, "sort-altered-input")
        order = sorted(range(len(rows)), key=lambda k: rows[k])
        same_page(ctx, s, EvaluationDataPage(**{f: None if getattr(whole, f) is None else getattr(whole, f)[order] for f in FIELDS}), "sort-is-permutation")
        same_page(ctx, s.sort(), s, "sort-is-stable")
        srows = [rows[k] for k in order]
        # realistic magnitudes for the arithmetic
        s = s._replace(logged_rewards=torch.tensor(r.normal(size=(len(rows), 1)) * 3, dtype=torch.float))
        if M:
            s = s._replace(logged_metrics=torch.tensor(r.normal(size=(len(rows), M)) * 2, dtype=torch.float))
            ctx.saw("metric_columns", M)
        keep = copy_page(s)
        v = s.compute_values(gamma)
        same_page(ctx, s, keep, "values-altered-input")
        ctx.saw("gaps", sum(1 for a, b in zip(srows, srows[1:]) if a[0] == b[0] and b[1] > a[1] + 1))
        ctx.close(v.logged_values, returns(srows, s.logged_rewards, gamma), "logged-values", rtol=1e-4, atol=1e-4)
        if M:
            ctx.close(v.logged_metrics_values, returns(srows, s.logged_metrics, gamma), "logged-metric-values", rtol=1e-4, atol=1e-4)
        else:
            ctx.expect(v.logged_metrics_values is None, "no-metric-values", "")
        same_page(ctx, v._replace(logged_values=s.logged_values, logged_metrics_values=s.logged_metrics_values), s, "values-touch-nothing-else")
        v.validate()
        ctx.saw("accepted")
        if M:
            j = int(r.integers(0, M))
            mask = torch.nn.functional.one_hot(torch.tensor(r.integers(0, A, size=len(rows))), A).float()
            v = v._replace(action_mask=mask)
            m = v.set_metric_as_reward(j, A)
            pick = slice(j * A, (j + 1) * A)
            want = v._replace(logged_rewards=v.logged_metrics[:, j:j + 1], logged_values=v.logged_metrics_values[:, j:j + 1], model_rewards=v.model_metrics[:, pick], model_values=v.model_metrics_values[:, pick],
                              model_rewards_for_logged_action=(v.model_metrics[:, pick] * mask).sum(1, keepdim=True), model_values_for_logged_action=(v.model_metrics_values[:, pick] * mask).sum(1, keepdim=True),
                              logged_metrics=None, logged_metrics_values=None, model_metrics=None, model_metrics_values=None)
            same_page(ctx, m, want, "metric-as-reward")
            m.validate()
        bad(ctx, r, v, srows, A, M)


def bad(ctx, r, v, rows, A, M):
    n = len(rows)
    x = lambda w, k=n: torch.zeros(k, w)  # noqa
    for f, w in (("logged_rewards", 1), ("logged_values", 1), ("model_propensities", A), ("model_rewards", A), ("model_values", A), ("logged_propensities", 1)):
        refused(ctx, lambda: v._replace(**{f: x(w + 1)}).validate(), f"accepted-wide-{f}")
        refused(ctx, lambda: v._replace(**{f: x(w, n + 1)}).validate(), f"accepted-long-{f}")
        refused(ctx, lambda: v._replace(**{f: torch.zeros(n)}).validate(), f"accepted-flat-{f}")
    if M:
        for f, w in (("logged_metrics_values", M), ("model_metrics", M * A), ("model_metrics_values", M * A)):
            refused(ctx, lambda: v._replace(**{f: x(w + 1)}).validate(), f"accepted-wide-{f}")
            refused(ctx, lambda: v._replace(**{f: x(w, n + 1)}).validate(), f"accepted-long-{f}")
    k = [j for j in range(1, n) if rows[j][0] == rows[j - 1][0]]
    if k:
        j = int(r.choice(k))
        t = v.sequence_number.clone()
        t[j] = t[j - 1] - int(r.integers(0, 2))
        refused(ctx, lambda: v._replace(sequence_number=t).validate(), "accepted-unordered-steps")
    ids = [m for m, _ in rows]
    if len(set(ids)) > 1 and k:
        # an episode interrupted by another one
        first = ids.index(ids[k[0]])
        size = ids.count(ids[first])
        rest = [j for j in range(n) if not first <= j < first + size]
        order = [first] + rest + list(range(first + 1, first + size))
        p = EvaluationDataPage(**{f: None if getattr(v, f) is None else getattr(v, f)[order] for f in FIELDS})
        refused(ctx, p.validate, "accepted-broken-episode")
    f = str(r.choice(["model_values", "logged_values", "contexts", "eval_action_idxs"]))
    refused(ctx, lambda: v._replace(**{f: None}).append(v._replace(**{f: x(1)})), "accepted-mixed-append")
    refused(ctx, lambda: v._replace(**{f: x(1)}).append(v._replace(**{f: None})), "accepted-mixed-append")


class Drop(nn.Module):
    """a network that misbehaves visibly when it is not in inference mode"""

    def __init__(self, net):
        super().__init__()
        self.net, self.drop = net, nn.Dropout(0.5)

    def forward(self, *a):
        return self.drop(self.net(*a))


def softmax(q, mask, temp):
    q, mask = q.double().numpy() / temp, mask.double().numpy()
    out = np.zeros_like(q)
    for i in range(len(q)):
        ok = mask[i] > 0
        if ok.any():
            e = np.exp(q[i][ok] - q[i][ok].max())
            out[i][ok] = e / e.sum()
    return out


def opt():
    return Optimizer__Union(SGD=classes["SGD"](lr=0.01))


def possible(r, n, A, logged=None):
    m = (r.random((n, A)) < 0.6).astype(np.float32)
    m[np.arange(n), r.integers(0, A, size=n)] = 1
    if logged is not None:
        m[np.arange(n), logged] = 1
    return torch.tensor(m)


def batch_of(rows, cols, kind, lo, hi, **extra):
    c = {k: x[lo:hi] for k, x in cols.items()}
    ex = rlt.ExtraData(mdp_id=c["mdp"], sequence_number=c["seq"], action_probability=c["p"], metrics=c.get("metrics"), **extra)
    fd = rlt.FeatureData
    base = dict(state=fd(c["s"]), next_state=fd(torch.randn_like(c["s"])), reward=c["r"], time_diff=torch.ones(hi - lo, 1), step=torch.ones(hi - lo, 1), not_terminal=torch.ones(hi - lo, 1), extras=ex)
    return base, c


def discrete(ctx, r, i):
    rows, batches = log(r)
    n, A, S, M = len(rows), int(r.integers(2, 5)), int(r.integers(1, 4)), int(r.choice([0, 0, 1, 2, 3]))
    gamma, temp = float(r.choice([0.5, 0.9, 1.0])), float(r.choice([0.1, 1.0, 3.0]))
    kind = str(r.choice(["dqn", "dqn", "qrdqn", "crr"]))
    names = [f"a{j}" for j in range(A)]
    boost = {k: float(r.normal()) for k in names if r.random() < 0.5} if r.random() < 0.5 else None
    with ctx.case("discrete", f"{kind} rows={rows} batches={[len(b) for b in batches]} A={A} M={M} gamma={gamma} T={temp} boost={boost}", distinct=f"d{i}"):
        rl = RLParameters(gamma=gamma, temperature=temp, reward_boost=boost)
        ev = EvaluationParameters(calc_cpe_in_training=True)
        q = Drop(DistNet(S, A, 5, scale=4.0) if kind == "qrdqn" else QNet(S, A, scale=4.0))
        rew, cpe = Drop(QNet(S, A * (M + 1), scale=3.0)), Drop(QNet(S, A * (M + 1), scale=3.0))
        metrics = [f"m{j}" for j in range(M)] or None
        kw = dict(actions=names, rl=rl, double_q_learning=bool(r.random() < 0.5), evaluation=ev, reward_network=rew, q_network_cpe=cpe, q_network_cpe_target=perturbed(cpe), metrics_to_score=metrics)
        if kind == "dqn":
            t = DQNTrainer(q_network=q, q_network_target=perturbed(q), optimizer=opt(), **kw)
        elif kind == "qrdqn":
            t = QRDQNTrainer(q_network=q, q_network_target=perturbed(q), num_atoms=5, optimizer=opt(), cpe_optimizer=opt(), **kw)
        else:
            t = DiscreteCRRTrainer(LogitActor(S, A), q, q2_network=None, q_network_optimizer=opt(), actor_network_optimizer=opt(), **kw)
        modes = [(net, bool(r.random() < 0.5)) for net in (q, rew, cpe)]
        for net, m in modes:
            net.train(m)
        act = r.integers(0, A, size=n)
        f32 = lambda *s: torch.tensor(r.normal(size=s), dtype=torch.float)  # noqa
        cols = dict(mdp=torch.tensor([m for m, _ in rows]).reshape(-1, 1), seq=torch.tensor([s for _, s in rows]).reshape(-1, 1), p=torch.tensor(r.random((n, 1)) * 0.8 + 0.1, dtype=torch.float), s=f32(n, S), r=f32(n, 1) * 3,
                    a=torch.nn.functional.one_hot(torch.tensor(act), A).float(), mask=possible(r, n, A, act))
        if M:
            cols["metrics"] = f32(n, M) * 2
        keep = {k: x.clone() for k, x in cols.items()}
        ctx.saw("masked_actions", int((cols["mask"] == 0).sum()))
        bs, lo = [], 0
        for b in batches:
            base, c = batch_of(rows, cols, kind, lo, lo + len(b))
            bs.append(rlt.DiscreteDqnInput(action=c["a"], next_action=torch.zeros(len(b), A), possible_actions_mask=c["mask"], possible_next_actions_mask=torch.ones(len(b), A), **base))
            lo += len(b)
        # what each row must look like
        inner = lambda net: torch.cat([net.net(rlt.FeatureData(cols["s"][k:k + 1])) for k in range(n)]).detach()  # noqa
        Q = inner(q).mean(2) if kind == "qrdqn" else inner(q)
        R, V = inner(rew), inner(cpe)
        rb = cols["r"] + torch.tensor([[(boost or {}).get(names[k], 0.0)] for k in act])
        pickm = lambda x: torch.stack([x[torch.arange(n), j * A + torch.tensor(act)] for j in range(M + 1)], 1)  # noqa
        want = dict(mdp_id=cols["mdp"], sequence_number=cols["seq"], logged_propensities=cols["p"], logged_rewards=rb, action_mask=cols["a"], model_propensities=torch.tensor(softmax(Q, cols["mask"], temp)), model_rewards=R[:, :A],
                    model_rewards_for_logged_action=pickm(R)[:, :1], model_values=V[:, :A], model_values_for_logged_action=pickm(V)[:, :1], possible_actions_mask=cols["mask"], optimal_q_values=Q,
                    eval_action_idxs=torch.where(cols["mask"] > 0, Q, torch.tensor(-1e30)).argmax(1, keepdim=True), logged_metrics=cols.get("metrics"))
        if M:
            want.update(model_metrics=R[:, A:], model_metrics_values=V[:, A:], model_metrics_for_logged_action=pickm(R)[:, 1:], model_metrics_values_for_logged_action=pickm(V)[:, 1:])
        lo = 0
        for b in bs:
            k = b.state.float_features.shape[0]
            p = EvaluationDataPage.create_from_training_batch(b, t)
            ctx.saw("trainer_pages")
            compare(ctx, p, {f: None if x is None else x[lo:lo + k] for f, x in want.items()}, kind)
            lo += k
        ctx.expect(all(net.training is m and net.drop.training is m for net, m in modes), "training-mode-restored", f"{[(net.training, m) for net, m in modes]}")
        # the evaluation epoch
        order = sorted(range(n), key=lambda k: rows[k])
        srows = [rows[k] for k in order]
        sorted_want = {f: None if x is None else x[order] for f, x in want.items()}
        sorted_want["logged_values"] = torch.tensor(returns(srows, sorted_want["logged_rewards"], gamma))
        if M:
            sorted_want["logged_metrics_values"] = torch.tensor(returns(srows, sorted_want["logged_metrics"], gamma))
        outs = [t.test_step(b, j) for j, b in enumerate(bs)]
        data = t.gather_eval_data(outs)
        compare(ctx, data, sorted_want, "gathered")
        if len(set(m for m, _ in rows)) >= 1 and n >= 2:
            seen = []
            real = t.evaluator.evaluate_post_training
            t.evaluator.evaluate_post_training = lambda d: (seen.append(d), real(d))[1]
            rep = Reporter()
            t.set_reporter(rep)
            t.test_epoch_end(outs)
            ctx.saw("epochs")
            ctx.expect(len(seen) == 1, "scored-once", f"{len(seen)}")
            for d in seen:
                compare(ctx, d, sorted_want, "scored")
            det = [d for d in map(lambda x: x.get("cpe_details"), rep.calls) if d is not None] if hasattr(rep, "calls") else None
            if det is not None:
                ctx.require(len(det) == 1, "details-logged-once", f"{len(det)}")
                det = det[0]
                ctx.close(det.reward_estimates.direct_method.raw, (sorted_want["model_propensities"] * sorted_want["model_rewards"]).sum(1).mean(), "epoch-dm", rtol=1e-3, atol=1e-4)
                ctx.expect(sorted(det.metric_estimates) == sorted(metrics or []), "epoch-metrics", f"{list(det.metric_estimates)}")
                for j in range(M):
                    ctx.close(det.metric_estimates[f"m{j}"].direct_method.raw, (sorted_want["model_propensities"] * sorted_want["model_metrics"][:, j * A:(j + 1) * A]).sum(1).mean(), "epoch-metric-dm", rtol=1e-3, atol=1e-4)
        for k, x in keep.items():
            ctx.expect(torch.equal(x, cols[k]), "log-altered", k)


def compare(ctx, page, want, mech):
    for f in FIELDS:
        g, w = getattr(page, f), want.get(f)
        if w is None or g is None:
            # a metrics column may be present but empty
            ctx.expect((g is None or g.numel() == 0) and (w is None or w.numel() == 0), f"{mech}:{f}", f"{g} want {w}")
        else:
            ctx.close(g, w, f"{mech}:{f}", rtol=1e-4, atol=2e-5)


def parametric(ctx, r, i):
    rows, batches = log(r)
    n, S, D, A, M = len(rows), int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(2, 5)), int(r.choice([0, 1, 2]))
    temp = float(r.choice([0.1, 1.0, 3.0]))
    with ctx.case("parametric", f"rows={rows} batches={[len(b) for b in batches]} A={A} D={D} M={M} T={temp}", distinct=f"q{i}"):
        ctx.saw("parametric")
        q, rew = Drop(CriticNet(S, D, scale=4.0)), Drop(CriticNet(S, D, 1 + M, scale=3.0))
        t = ParametricDQNTrainer(q_network=q, q_network_target=perturbed(q), reward_network=rew, rl=RLParameters(gamma=0.9, temperature=temp), optimizer=opt())
        modes = [(net, bool(r.random() < 0.5)) for net in (q, rew)]
        for net, m in modes:
            net.train(m)
        f32 = lambda *s: torch.tensor(r.normal(size=s), dtype=torch.float)  # noqa
        act = r.integers(0, A, size=n)
        pa, mask = f32(n, A, D), possible(r, n, A, act)
        cols = dict(mdp=torch.tensor([m for m, _ in rows]).reshape(-1, 1), seq=torch.tensor([s for _, s in rows]).reshape(-1, 1), p=torch.tensor(r.random((n, 1)) * 0.8 + 0.1, dtype=torch.float), s=f32(n, S), r=f32(n, 1) * 3,
                    pa=pa, mask=mask, a=pa[torch.arange(n), torch.tensor(act)])
        if M:
            cols["metrics"] = f32(n, M)
        one = lambda net, k, a: net.net(rlt.FeatureData(cols["s"][k:k + 1]), rlt.FeatureData(a.reshape(1, -1))).detach()[0]  # noqa
        Q = torch.stack([torch.stack([one(q, k, pa[k, j]) for j in range(A)]) for k in range(n)])[:, :, 0]
        R = torch.stack([torch.stack([one(rew, k, pa[k, j]) for j in range(A)]) for k in range(n)])
        at = (torch.arange(n), torch.tensor(act))
        want = dict(mdp_id=cols["mdp"], sequence_number=cols["seq"], logged_propensities=cols["p"], logged_rewards=cols["r"], action_mask=torch.nn.functional.one_hot(torch.tensor(act), A), model_propensities=torch.tensor(softmax(Q, mask, temp)),
                    model_rewards=R[:, :, 0], model_rewards_for_logged_action=R[at][:, :1], model_values=Q, model_values_for_logged_action=Q[at].reshape(-1, 1), possible_actions_mask=mask, optimal_q_values=Q, logged_metrics=cols.get("metrics"))
        if M:
            want["model_metrics"] = torch.cat([R[:, :, 1 + j] for j in range(M)], 1)
        lo, page = 0, None
        for b in batches:
            base, c = batch_of(rows, cols, "parametric", lo, lo + len(b), max_num_actions=A)
            x = rlt.ParametricDqnInput(action=rlt.FeatureData(c["a"]), next_action=rlt.FeatureData(torch.zeros(len(b), D)), possible_actions=rlt.FeatureData(c["pa"].reshape(-1, D)), possible_actions_mask=c["mask"],
                                       possible_next_actions=rlt.FeatureData(torch.zeros(len(b) * A, D)), possible_next_actions_mask=torch.ones(len(b), A), **base)
            p = EvaluationDataPage.create_from_training_batch(x, t)
            ctx.saw("trainer_pages")
            part = {f: None if y is None else y[lo:lo + len(b)] for f, y in want.items()}
            # parametric learners have no separate evaluation network: metric values are a declared stand-in
            compare(ctx, p._replace(model_metrics_values=None), part, "parametric")
            page = p if page is None else page.append(p)
            lo += len(b)
        ctx.expect(all(net.training is m and net.drop.training is m for net, m in modes), "training-mode-restored", "parametric")
        order = sorted(range(n), key=lambda k: rows[k])
        srows = [rows[k] for k in order]
        v = page.sort().compute_values(0.9)
        v.validate()
        ctx.close(v.logged_values, returns(srows, cols["r"][order], 0.9), "parametric-values", rtol=1e-4, atol=1e-4)
        ctx.close(v.model_values, Q[order], "parametric-sorted", rtol=1e-4, atol=2e-5)
        # a logged action that is not among the candidates is refused
        base, c = batch_of(rows, cols, "parametric", 0, 1, max_num_actions=A)
        x = rlt.ParametricDqnInput(action=rlt.FeatureData(c["a"] + 1), next_action=rlt.FeatureData(torch.zeros(1, D)), possible_actions=rlt.FeatureData(c["pa"].reshape(-1, D)), possible_actions_mask=c["mask"],
                                   possible_next_actions=rlt.FeatureData(torch.zeros(A, D)), possible_next_actions_mask=torch.ones(1, A), **base)
        refused(ctx, lambda: EvaluationDataPage.create_from_training_batch(x, t), "accepted-unknown-action")


class SlateReward(nn.Module):
    """any deterministic function of everything it is given, row by row"""

    def __init__(self, r):
        super().__init__()
        self.k = [float(x) for x in r.normal(size=5)]

    def forward(self, state, src, tgt, mask, idx):
        w = torch.arange(1, tgt.shape[1] + 1).float().reshape(1, -1, 1)
        return (self.k[0] * state.sum(1) + self.k[1] * src.sum((1, 2)) + self.k[2] * (tgt * w).sum((1, 2)) + self.k[3] * (mask.float().sum((1, 2)) if mask is not None else 0.0) + self.k[4] * (idx.float() * w[..., 0]).sum(1)).reshape(-1, 1)


def slates(ctx, r, i):
    src = int(r.integers(2, 5))
    tgt = int(r.integers(1, src + 1))
    n = int(r.integers(1, 9))
    arch = [Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT][i % 2]
    if arch == Seq2SlateOutputArch.FRECHET_SORT:
        tgt = src
    with ctx.case("slate", f"{arch} src={src} tgt={tgt} n={n}", distinct=f"s{i}"):
        ctx.saw("slates")
        rng = ctx.sub(f"slate{i}")
        net = make_net(rng, arch, src, tgt, spread=3.0).eval()
        b = slate_batch(rng, net, n, propensity=torch.tensor(r.random((n, 1)), dtype=torch.float) + 0.1, reward=torch.tensor(r.normal(size=(n, 1)), dtype=torch.float))
        rw = SlateReward(r)
        with torch.no_grad():
            greedy = net(b, Seq2SlateMode.RANK_MODE, greedy=True).ranked_tgt_out_idx
            lp = net(b, Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
        if i % 3 == 0:
            # some logged slates are the greedy ones
            rows = torch.tensor(r.random(n) < 0.6)
            act = torch.where(rows.reshape(-1, 1), greedy, b.tgt_out_idx) - 2
            b = slate_batch_like(b, act)
            with torch.no_grad():
                lp = net(b, Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
        ids, seqs = torch.arange(n).reshape(-1, 1), torch.zeros(n, 1, dtype=torch.long)
        for eval_greedy in (True, False):
            p = EvaluationDataPage.create_from_tensors_seq2slate(net, rw, b, eval_greedy, mdp_ids=ids, sequence_numbers=seqs)
            cand = b.src_seq.float_features
            take = lambda idx: torch.stack([cand[k][idx[k] - 2] for k in range(n)])  # noqa
            mask = torch.ones(n, 1) if not eval_greedy else torch.tensor([[float(torch.equal(greedy[k], b.tgt_out_idx[k]))] for k in range(n)])
            want = dict(mdp_id=ids, sequence_number=seqs, logged_propensities=b.tgt_out_probs.reshape(-1, 1), logged_rewards=b.slate_reward.reshape(-1, 1), action_mask=mask,
                        model_propensities=torch.ones(n, 1) if eval_greedy else lp.exp().reshape(-1, 1),
                        model_rewards=rw(b.state.float_features, cand, take(greedy), b.src_src_mask, greedy), model_rewards_for_logged_action=rw(b.state.float_features, cand, take(b.tgt_out_idx), b.src_src_mask, b.tgt_out_idx))
            compare(ctx, p, want, f"slate-greedy={eval_greedy}")


def slate_batch_like(b, act):
    return rlt.PreprocessedRankingInput.from_input(state=b.state.float_features, candidates=b.src_seq.float_features, device=torch.device("cpu"), action=act, logged_propensities=b.tgt_out_probs, slate_reward=b.slate_reward)


def run(ctx):
    for name, f, q, t in [("pages", pages, 90, 1500), ("discrete", discrete, 40, 500), ("parametric", parametric, 24, 300), ("slates", slates, 24, 300)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
