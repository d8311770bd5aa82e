"""Every Lightning trainer with harness networks, its batches, and what each optimizer owns."""
import dataclasses

import torch
import torch.nn as nn
import reagent.types as rlt
from reagent.optimizer import Optimizer__Union
from reagent.optimizer.union import classes
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.slate_q_trainer import SlateQTrainer
from reagent.training.td3_trainer import TD3Trainer

from vf.train import CriticNet, DetActor, DistNet, GaussActor, LogitActor, Mlp, QNet, dqn_batch, feats, masks, not_terminal, perturbed

KINDS = ["dqn", "c51", "qrdqn", "parametric", "slateq", "td3", "sac", "crr"]


@dataclasses.dataclass
class Zoo:
    kind: str
    module: nn.Module
    make_batch: object
    owned: list  # one tuple of network attribute names per gradient optimizer, any order
    pairs: list  # (target attribute, source attribute)
    tau: float
    delayed: tuple = ()  # networks updated only every `delay` batches (with the targets)
    delay: int = 1
    desc: dict = dataclasses.field(default_factory=dict)

    def params(self, attr):
        x = getattr(self.module, attr)
        return [x] if isinstance(x, nn.Parameter) else list(x.parameters())


class CatNet(nn.Module):
    """A distributional network with the log_dist interface."""

    def __init__(self, s, a, n):
        super().__init__()
        self.d = DistNet(s, a, n)

    def log_dist(self, st):
        return self.d.log_dist(st)

    def forward(self, st):
        return self.d.log_dist(st).exp().mean(2)


class VNet(Mlp):
    pass


def opt(rng):
    k = rng.choice(["SGD", "Adam", "AdamW", "SGD_m"])
    if k == "SGD":
        return Optimizer__Union(SGD=classes["SGD"](lr=0.05)), k
    if k == "SGD_m":
        return Optimizer__Union(SGD=classes["SGD"](lr=0.05, momentum=0.9, weight_decay=0.01)), k
    return Optimizer__Union(**{k: classes[k](lr=0.01)}), k


def policy_batch(rng, n, s, a):
    return rlt.PolicyNetworkInput(state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1) * 2, time_diff=torch.ones(n, 1), step=torch.ones(n, 1),
                                  not_terminal=not_terminal(rng, n), action=rlt.FeatureData(torch.rand(n, a) * 2 - 1), next_action=rlt.FeatureData(torch.rand(n, a) * 2 - 1), extras=rlt.ExtraData())


def build(rng, kind, **extra):
    s, a = rng.randint(1, 3), rng.randint(2, 4)
    tau = rng.choice([0.0, 0.001, 0.3, 1.0])
    o, oname = opt(rng)
    names = [f"a{i}" for i in range(a)]
    rl = RLParameters(gamma=0.9, target_update_rate=tau, maxq_learning=rng.random() < 0.7)
    desc = dict(kind=kind, tau=tau, opt=oname)

    def bsz():
        return rng.choice([2, 3, 6])

    if kind in ("dqn", "c51", "qrdqn"):
        cpe = kind != "c51" and rng.random() < 0.6
        metrics = ["m1"] if cpe and rng.random() < 0.5 else None
        nm = 1 + len(metrics or [])
        kw, owned, pairs = {}, [("q_network",)], [("q_network_target", "q_network")]
        if cpe:
            qc = QNet(s, a * nm)
            kw = dict(reward_network=QNet(s, a * nm), q_network_cpe=qc, q_network_cpe_target=perturbed(qc), metrics_to_score=metrics)
            owned += [("reward_network",), ("q_network_cpe",)]
            pairs += [("q_network_cpe_target", "q_network_cpe")]
        ev = EvaluationParameters(calc_cpe_in_training=cpe)
        dq = rng.random() < 0.5
        if kind == "dqn":
            q = QNet(s, a)
            bc = rng.random() < 0.3
            if bc:
                kw.update(bcq=BCQConfig(drop_threshold=0.1), imitator=lambda x: torch.softmax(x.float() @ torch.ones(s, a), 1))
                kw["imitator"] = Imit(s, a)
            kw.setdefault("reward_network", None)
            t = DQNTrainer(q_network=q, q_network_target=perturbed(q), actions=names, rl=rl, double_q_learning=dq, optimizer=o, evaluation=ev, **kw)
            desc["bcq"] = bc
        elif kind == "c51":
            q = CatNet(s, a, 7)
            t = C51Trainer(q_network=q, q_network_target=perturbed(q), actions=names, rl=rl, double_q_learning=dq, num_atoms=7, qmin=-5, qmax=5, optimizer=o)
        else:
            q = DistNet(s, a, 5)
            t = QRDQNTrainer(q_network=q, q_network_target=perturbed(q), actions=names, rl=rl, double_q_learning=dq, num_atoms=5, optimizer=o, cpe_optimizer=o, evaluation=ev, **kw)
        desc.update(cpe=cpe, metrics=metrics, dq=dq)
        return Zoo(kind, t, lambda: dqn_batch(rng, bsz(), s, a, metrics=len(metrics or [])), owned, pairs, tau, desc=desc)
    if kind == "parametric":
        d = rng.randint(1, 3)
        q = CriticNet(s, d)
        t = ParametricDQNTrainer(q_network=q, q_network_target=perturbed(q), reward_network=CriticNet(s, d), rl=rl, double_q_learning=rng.random() < 0.5, optimizer=o)

        def mk():
            n, m = bsz(), rng.randint(2, 3)
            return rlt.ParametricDqnInput(state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1), time_diff=torch.ones(n, 1), step=torch.ones(n, 1), not_terminal=not_terminal(rng, n),
                                          action=feats(n, d), next_action=feats(n, d), possible_actions=feats(n * m, d), possible_actions_mask=masks(rng, n, m), possible_next_actions=feats(n * m, d),
                                          possible_next_actions_mask=masks(rng, n, m), extras=rlt.ExtraData())
        return Zoo(kind, t, mk, [("q_network",), ("reward_network",)], [("q_network_target", "q_network")], tau, desc=desc)
    if kind == "slateq":
        d = rng.randint(1, 3)
        q = CriticNet(s, d)
        rl = dataclasses.replace(rl, maxq_learning=False)
        t = SlateQTrainer(q_network=q, q_network_target=perturbed(q), rl=rl, single_selection=rng.random() < 0.5, optimizer=o)

        def mk():
            n, c, sl = bsz(), 4, 2

            def st():
                return rlt.FeatureData(torch.randn(n, s), candidate_docs=rlt.DocList(float_features=torch.randn(n, c, d), mask=torch.ones(n, c, dtype=torch.bool), value=torch.rand(n, c)))
            pick = lambda: torch.tensor([rng.sample(range(c), sl) for _ in range(n)])
            rm = torch.zeros(n, sl, dtype=torch.bool)
            rm[:, 0] = True
            return rlt.SlateQInput(state=st(), next_state=st(), reward=torch.randn(n, sl), time_diff=torch.ones(n, 1), step=torch.ones(n, 1), not_terminal=not_terminal(rng, n), action=pick(), next_action=pick(),
                                   reward_mask=rm, extras=rlt.ExtraData())
        return Zoo(kind, t, mk, [("q_network",)], [("q_network_target", "q_network")], tau, desc=desc)
    two = rng.random() < 0.6
    delay = rng.choice([1, 2, 3])
    desc.update(two=two, delay=delay)
    qs = [("q1_network",)] + ([("q2_network",)] if two else [])
    qp = [("q1_network_target", "q1_network")] + ([("q2_network_target", "q2_network")] if two else [])
    if kind == "td3":
        t = TD3Trainer(DetActor(s, a), CriticNet(s, a), CriticNet(s, a) if two else None, rl=rl, noise_variance=0.2, noise_clip=0.5, delayed_policy_update=delay, q_network_optimizer=o, actor_network_optimizer=o)
        z = Zoo(kind, t, lambda: policy_batch(rng, bsz(), s, a), qs + [("actor_network",)], qp + [("actor_network_target", "actor_network")], tau, ("actor_network",), delay, desc)
    elif kind == "crr":
        cpe = rng.random() < 0.4
        kw = {}
        owned, pairs = qs + [("actor_network",)], qp + [("actor_network_target", "actor_network")]
        if cpe:
            qc = QNet(s, a)
            kw = dict(q_network_cpe=qc, q_network_cpe_target=perturbed(qc))
            owned += [("reward_network",), ("q_network_cpe",)]
            pairs += [("q_network_cpe_target", "q_network_cpe")]
        desc["cpe"] = cpe
        t = DiscreteCRRTrainer(LogitActor(s, a), QNet(s, a), QNet(s, a) if cpe else None, QNet(s, a) if two else None, actions=names, rl=rl, use_target_actor=rng.random() < 0.5, delayed_policy_update=delay,
                               evaluation=EvaluationParameters(calc_cpe_in_training=cpe), q_network_optimizer=o, actor_network_optimizer=o, **kw)
        z = Zoo(kind, t, lambda: dqn_batch(rng, bsz(), s, a), owned, pairs, tau, ("actor_network",), delay, desc)
    else:
        val = rng.random() < 0.5
        alpha = rng.random() < 0.5
        crr = CRRWeightFn(exponent_beta=1.0) if val and rng.random() < 0.3 else None
        t = SACTrainer(GaussActor(s, a), CriticNet(s, a), CriticNet(s, a) if two else None, VNet(s, 1) if val else None, rl=rl, q_network_optimizer=o, actor_network_optimizer=o, value_network_optimizer=o,
                       alpha_optimizer=o if alpha else None, crr_config=crr, **extra)
        owned = qs + [("actor_network",)] + ([("log_alpha",)] if alpha else []) + ([("value_network",)] if val else [])
        pairs = [("value_network_target", "value_network")] if val else qp
        desc.update(value=val, alpha=alpha, crr=bool(crr))
        z = Zoo(kind, t, lambda: policy_batch(rng, bsz(), s, a), owned, pairs, tau, desc=desc)
    with torch.no_grad():  # online and target start apart
        for tg, _ in z.pairs:
            for p in z.params(tg):
                p.add_(torch.randn_like(p) * 0.3)
    return z


class Imit(nn.Module):
    def __init__(self, s, a):
        super().__init__()
        self.m = Mlp(s, a)

    def forward(self, x):
        return self.m(x)


def dataset(batches):
    return torch.utils.data.DataLoader(batches, batch_size=None, shuffle=False)


def lightning(epochs=1, **kw):
    import pytorch_lightning as pl

    return pl.Trainer(max_epochs=epochs, logger=kw.pop("logger", False), checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, **kw)
