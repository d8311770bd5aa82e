"""W01: a model manager's options are the trainer, the policies and the serving modules it builds."""
import vf.quiet  # noqa
import vf.minispark  # noqa  (the workflow package imports pyspark)
import copy
import dataclasses
import itertools

import numpy as np
import torch
import reagent.training  # noqa  (import order)
import reagent.types as rlt
from reagent.models.base import ModelBase
from reagent.optimizer import Optimizer__Union
from reagent.optimizer.union import classes
from reagent.parameters import CEMTrainerParameters, EvaluationParameters, MDNRNNTrainerParameters, NormalizationData, NormalizationParameters, RLParameters, Seq2RewardTrainerParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.cem_trainer import CEMTrainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.slate_q_trainer import SlateQTrainer
from reagent.training.td3_trainer import TD3Trainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.types import RewardOptions

from checks.S01 import preprocessed, raw_rows
from vf.features import EPS, ORDINARY, feature_set, width
from vf.stats import multinomial_ok
from vf.train import attach, dqn_batch, drive, feats, masks, not_terminal, same, snapshot
from vf.zoo import policy_batch

RULE = (
    "Every model manager (discrete DQN, C51, QR-DQN, CRR, parametric DQN, SAC, TD3, slate Q, world model, cross entropy, sequence reward) is "
    "configured from plain dictionaries through the manager union with random trainer options, optimizers, network builders and normalisation "
    "data. The trainer it builds must behave exactly like one constructed directly with those options over copies of its networks: both see "
    "the same batches under the same random stream and must end with the same parameters. Network sizes, the evaluation heads, target copies "
    "and their independence are checked, then the online policy, the serving policy and every serving module must act as the trained network "
    "on the normalised observation does (greedy, softmax at the declared temperature, top-k, masks). Missing normalisation, repeated "
    "initialisation, early access and malformed configurations must be refused."
)
REQUIRED = {"managers": 60, "compared_batches": 120, "parameters_compared": 800, "policies": 100, "acts": 400, "masked_acts": 40, "serving_modules": 50, "serving_rows": 150, "refused": 100, "cpe_heads": 8, "target_copies": 50, "softmax_acts": 8, "bounds": 10, "world_models": 8, "terminal_plans": 4}

TRAINERS = dict(DiscreteDQN=DQNTrainer, DiscreteC51DQN=C51Trainer, DiscreteQRDQN=QRDQNTrainer, DiscreteCRR=DiscreteCRRTrainer, ParametricDQN=ParametricDQNTrainer, SAC=SACTrainer, TD3=TD3Trainer, SlateQ=SlateQTrainer)
NETS = dict(
    DiscreteDQN=["q_network", "q_network_target", "reward_network", "q_network_cpe", "q_network_cpe_target"],
    DiscreteC51DQN=["q_network", "q_network_target"],
    DiscreteQRDQN=["q_network", "q_network_target", "reward_network", "q_network_cpe", "q_network_cpe_target"],
    DiscreteCRR=["actor_network", "q1_network", "q2_network", "reward_network", "q_network_cpe", "q_network_cpe_target"],
    ParametricDQN=["q_network", "q_network_target", "reward_network"],
    SAC=["actor_network", "q1_network", "q2_network", "value_network"],
    TD3=["actor_network", "q1_network", "q2_network"],
    SlateQ=["q_network", "q_network_target"],
)
PAIRS = [("q_network_target", "q_network"), ("q_network_cpe_target", "q_network_cpe"), ("q1_network_target", "q1_network"), ("q2_network_target", "q2_network"), ("actor_network_target", "actor_network"), ("value_network_target", "value_network")]
DISCRETE = ("DiscreteDQN", "DiscreteC51DQN", "DiscreteQRDQN", "DiscreteCRR")


STATE_TYPES = [t for t in ORDINARY if t != "DISCRETE_ACTION"]


def optim(rng):
    k = rng.choice(["SGD", "Adam", "AdamW", "RMSprop"])
    kw = dict(lr=rng.choice([0.05, 0.01, 0.2]))
    if k == "SGD":
        kw["momentum"] = rng.choice([0.0, 0.9])
    return {k: kw}


def union(o):
    return Optimizer__Union(**{k: classes[k](**kw) for k, kw in o.items()})


def layers(rng):
    n = rng.randint(1, 2)
    return dict(sizes=[2 * rng.randint(2, 5) for _ in range(n)], activations=[rng.choice(["relu", "tanh", "leaky_relu"]) for _ in range(n)])


def total(norm):
    return sum(width(p) for p in norm.values())


class Plan:
    """plain options of one manager: what the config says, and the same as trainer keywords"""

    def __init__(self, rng, kind):
        self.kind = kind
        self.state = feature_set(rng, types=STATE_TYPES, max_n=4)
        self.sdim = total(self.state)
        self.rl = dict(gamma=rng.choice([0.0, 0.5, 0.9, 1.0]), target_update_rate=rng.choice([0.001, 0.3, 1.0]), temperature=rng.choice([0.1, 0.5, 2.0]))
        o = self.o = {}
        self.cfg = cfg = {}
        self.norm = {"state": NormalizationData(dense_normalization_parameters=self.state)}
        self.metrics = None
        self.cpe = False
        if kind in DISCRETE:
            a = self.a = rng.randint(2, 4)
            self.actions = rng.choice([["L", "R", "up", "no op"], ["3", "1", "2", "0"]])[:a]
            o["actions"] = list(self.actions)
            self.rl["softmax_policy"] = rng.random() < 0.4
            self.rl["maxq_learning"] = rng.random() < 0.6
            if kind != "DiscreteCRR" and rng.random() < 0.4:
                self.rl["reward_boost"] = {n: rng.uniform(-2, 2) for n in rng.sample(self.actions, rng.randint(1, a))}
            if rng.random() < 0.3:
                self.rl["multi_steps"] = rng.randint(1, 4)
            elif rng.random() < 0.3:
                self.rl["use_seq_num_diff_as_time_diff"] = True
                self.rl["time_diff_unit_length"] = 1.0
            if kind in ("DiscreteDQN", "DiscreteCRR") and rng.random() < 0.3:
                self.rl["q_network_loss"] = "huber"
            o["double_q_learning"] = rng.random() < 0.5
            o["minibatch_size"] = rng.choice([8, 64])
            self.cpe = rng.random() < 0.5
            self.metrics = {m: rng.uniform(-1, 1) for m in rng.sample(["zz", "aa", "mm"], rng.randint(0, 3))} or None
            cfg["eval_parameters"] = dict(calc_cpe_in_training=self.cpe)
            if kind == "DiscreteC51DQN":
                lo = rng.choice([-5.0, -20.0])
                o.update(num_atoms=rng.randint(3, 9), qmin=lo, qmax=lo + rng.choice([7.0, 30.0]), optimizer=optim(rng))
                cfg["net_builder"] = {"Categorical": layers(rng)}
            elif kind == "DiscreteQRDQN":
                o.update(num_atoms=rng.randint(2, 6), optimizer=optim(rng), cpe_optimizer=optim(rng))
                cfg["net_builder"] = {rng.choice(["Quantile", "DuelingQuantile"]): layers(rng)}
                cfg["cpe_net_builder"] = {"FullyConnected": layers(rng)}
            elif kind == "DiscreteDQN":
                o.update(optimizer=optim(rng))
                cfg["net_builder"] = {rng.choice(["FullyConnected", "Dueling"]): layers(rng)}
                cfg["cpe_net_builder"] = {"FullyConnected": layers(rng)}
            else:
                o.update(q_network_optimizer=optim(rng), actor_network_optimizer=optim(rng), use_target_actor=rng.random() < 0.5, delayed_policy_update=rng.randint(1, 3))
                cfg["actor_net_builder"] = {"FullyConnected": dict(layers(rng), action_activation=rng.choice(["linear", "tanh"]))}
                cfg["critic_net_builder"] = {rng.choice(["FullyConnected", "Dueling"]): layers(rng)}
                cfg["cpe_net_builder"] = {"FullyConnected": layers(rng)}
        elif kind in ("SAC", "TD3"):
            self.action = feature_set(rng, types=["CONTINUOUS_ACTION"], max_n=3)
            self.a = len(self.action)
            self.norm["action"] = NormalizationData(dense_normalization_parameters=self.action)
            o.update(q_network_optimizer=optim(rng), actor_network_optimizer=optim(rng), minibatch_size=rng.choice([8, 64]))
            cfg["critic_net_builder"] = {"FullyConnected": layers(rng)}
            cfg["use_2_q_functions"] = rng.random() < 0.6
            if kind == "SAC":
                o.update(value_network_optimizer=optim(rng), alpha_optimizer=rng.choice([None, optim(rng)]), entropy_temperature=rng.choice([0.01, 0.3]), logged_action_uniform_prior=rng.random() < 0.5, target_entropy=rng.choice([-1.0, -3.0]), backprop_through_log_prob=rng.random() < 0.5)
                self.value = rng.random() < 0.6
                if self.value and rng.random() < 0.25:
                    o["backprop_through_log_prob"] = True  # the weighted log probability is all there is to follow
                    o["crr_config"] = dict(exponent_beta=rng.choice([0.5, 1.0]), exponent_clamp=rng.choice([None, 2.0]))
                if rng.random() < 0.3:
                    o.update(action_embedding_kld_weight=rng.choice([0.3, 2.0]), apply_kld_on_mean=rng.random() < 0.5, action_embedding_mean=[rng.uniform(-0.5, 0.5) for _ in range(self.a)], action_embedding_variance=[rng.uniform(0.1, 1) for _ in range(self.a)])
                cfg["actor_net_builder"] = {"GaussianFullyConnected": layers(rng)}
                cfg["value_net_builder"] = {"FullyConnected": layers(rng)} if self.value else None
                self.mean = cfg["serve_mean_policy"] = rng.random() < 0.75
            else:
                o.update(noise_variance=rng.choice([0.2, 1.0]), noise_clip=rng.choice([0.1, 0.5]), delayed_policy_update=rng.randint(1, 3))
                cfg["actor_net_builder"] = {"FullyConnected": dict(layers(rng), action_activation=rng.choice(["tanh", "sigmoid"]))}
        elif kind == "ParametricDQN":
            self.action = feature_set(rng, types=["CONTINUOUS", "BINARY", "DO_NOT_PREPROCESS", "PROBABILITY"], n=rng.randint(2, 4))
            self.a = len(self.action)
            self.norm["action"] = NormalizationData(dense_normalization_parameters=self.action)
            self.metrics = {m: rng.uniform(-1, 1) for m in rng.sample(["zz", "aa", "mm"], rng.randint(0, 3))} or None
            self.rl["maxq_learning"] = rng.random() < 0.6
            o.update(double_q_learning=rng.random() < 0.5, minibatch_size=rng.choice([8, 64]), optimizer=optim(rng))
            if rng.random() < 0.3:
                self.rl["q_network_loss"] = "huber"
            cfg["net_builder"] = {"FullyConnected": layers(rng)}
        else:  # SlateQ
            self.item = feature_set(rng, types=STATE_TYPES, max_n=3)
            self.norm["item"] = NormalizationData(dense_normalization_parameters=self.item)
            self.candidates, self.slate = rng.randint(3, 5), rng.randint(1, 3)
            self.rl["maxq_learning"] = False
            o.update(optimizer=optim(rng), single_selection=rng.random() < 0.5, minibatch_size=rng.choice([8, 64]))
            cfg.update(net_builder={"FullyConnected": layers(rng)}, slate_feature_id=7, slate_score_id=(1, 2), slate_size=self.slate, num_candidates=self.candidates)
        cfg["trainer_param"] = dict(o, rl=self.rl)
        self.reward = RewardOptions(metric_reward_values=self.metrics)

    def build(self):
        return ModelManager__Union(**{self.kind: copy.deepcopy(self.cfg)}).value

    def keywords(self):
        kw = {}
        for k, v in copy.deepcopy(self.o).items():
            if k.endswith("optimizer") and v is not None:
                v = union(v)
            kw["crr_config" if k == "crr_config" else k] = CRRWeightFn(**v) if k == "crr_config" else v
        kw["rl"] = RLParameters(**self.rl)
        if self.kind in ("DiscreteDQN", "DiscreteQRDQN", "DiscreteCRR"):
            kw["evaluation"] = EvaluationParameters(calc_cpe_in_training=self.cpe)
            kw["metrics_to_score"] = sorted(self.metrics or {})
        return kw

    def batch(self, rng):
        n = rng.choice([2, 3, 5])
        if self.kind in DISCRETE:
            return dqn_batch(rng, n, self.sdim, self.a, metrics=len(self.metrics or {}))
        if self.kind in ("SAC", "TD3"):
            return policy_batch(rng, n, self.sdim, self.a)
        if self.kind == "ParametricDQN":
            m, d, s = rng.randint(2, 3), self.a, self.sdim
            return rlt.ParametricDqnInput(state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1), time_diff=torch.ones(n, 1), step=torch.ones(n, 1), not_terminal=not_terminal(rng, n),
                                          action=feats(n, d), next_action=feats(n, d), possible_actions=feats(n * m, d), possible_actions_mask=masks(rng, n, m), possible_next_actions=feats(n * m, d),
                                          possible_next_actions_mask=masks(rng, n, m), extras=rlt.ExtraData(metrics=torch.randn(n, len(self.metrics)) if self.metrics else None))
        c, sl, d = self.candidates, min(self.slate, self.candidates), total(self.item)

        def st():
            return rlt.FeatureData(torch.randn(n, self.sdim), candidate_docs=rlt.DocList(float_features=torch.randn(n, c, d), mask=torch.ones(n, c, dtype=torch.bool), value=torch.rand(n, c)))

        def pick():
            return torch.tensor([rng.sample(range(c), sl) for _ in range(n)])
        rm = torch.zeros(n, sl, dtype=torch.bool)
        rm[:, 0] = True
        return rlt.SlateQInput(state=st(), next_state=st(), reward=torch.randn(n, sl), time_diff=torch.ones(n, 1), step=torch.ones(n, 1), not_terminal=not_terminal(rng, n), action=pick(), next_action=pick(), reward_mask=rm, extras=rlt.ExtraData())


def refuses(ctx, what, fn, *types):
    try:
        fn()
    except (types or (AssertionError,)):
        ctx.saw("refused")
        return
    ctx.expect(False, what + "-accepted", "")


def storages(m):
    return {p.data_ptr() for p in m.parameters()}


def outputs(net, plan, n=4):
    st = feats(n, plan.sdim)
    with torch.no_grad():
        return net(st)


def construct(ctx, rng, plan):
    """build through the manager; everything too early, missing or repeated is refused"""
    m = plan.build()
    ctx.saw("managers")
    keys = sorted(plan.norm)
    ctx.expect(sorted(m.required_normalization_keys) == keys, "required-keys", f"{m.required_normalization_keys} want {keys}")
    refuses(ctx, "trainer-before-initialisation", lambda: m.trainer)
    refuses(ctx, "use_gpu-before-initialisation", lambda: m.use_gpu)
    refuses(ctx, "normalization-before-initialisation", lambda: m.state_normalization_data)
    gone = rng.choice(keys)
    bad = rng.choice([{k: v for k, v in plan.norm.items() if k != gone}, dict(plan.norm, **{gone: None})])
    broken = plan.build()
    refuses(ctx, "missing-normalization", lambda: broken.initialize_trainer(False, plan.reward, bad))
    refuses(ctx, "trainer-after-refusal", lambda: broken.trainer)
    data = dict(plan.norm)
    if rng.random() < 0.3:
        data["extra"] = NormalizationData(dense_normalization_parameters={})
    t = m.initialize_trainer(False, plan.reward, data)
    ctx.expect(m.trainer is t and m.use_gpu is False and m.reward_options is plan.reward, "trainer-kept", "")
    for k in plan.norm:
        ctx.expect(getattr(m, k + "_normalization_data") is plan.norm[k], "normalization-property", k)
    refuses(ctx, "unknown-normalization", lambda: m.other_normalization_data, AttributeError)
    refuses(ctx, "unknown-attribute", lambda: m.no_such_thing, AttributeError)
    refuses(ctx, "second-initialisation", lambda: m.initialize_trainer(False, plan.reward, data))
    return m, t


def architecture(ctx, plan, m, t):
    kind = plan.kind
    ctx.require(type(t) is TRAINERS[kind], "trainer-type", f"{type(t)}")
    for tg, src in PAIRS:
        a, b = getattr(t, tg, None), getattr(t, src, None)
        if a is None or b is None:
            ctx.expect((a is None) or b is not None, "target-without-network", f"{tg}")
            continue
        ctx.saw("target_copies")
        ctx.expect(not (storages(a) & storages(b)), "target-shares-parameters", tg)
        ctx.expect(all(torch.equal(x, y) for x, y in itertools.zip_longest(a.state_dict().values(), b.state_dict().values())), "target-differs", tg)
    two = dict(DiscreteCRR=plan.o.get("double_q_learning"), SAC=plan.cfg.get("use_2_q_functions"), TD3=plan.cfg.get("use_2_q_functions")).get(kind)
    if two is not None:
        ctx.expect((t.q2_network is not None) == two, "second-critic", f"{t.q2_network is not None} want {two}")
        if two and t.q2_network is not None:
            ctx.expect(not (storages(t.q1_network) & storages(t.q2_network)) and not all(torch.equal(x, y) for x, y in zip(t.q1_network.parameters(), t.q2_network.parameters())), "second-critic-is-the-first", "")
    if kind == "SAC":
        ctx.expect((t.value_network is not None) == plan.value, "value-network", "")
    if kind in ("DiscreteDQN", "DiscreteQRDQN", "DiscreteCRR"):
        for name in ("reward_network", "q_network_cpe", "q_network_cpe_target"):
            net = getattr(t, name, None)
            if not plan.cpe:
                ctx.expect(net is None, "cpe-head-unasked", name)
                continue
            ctx.saw("cpe_heads")
            ctx.require(net is not None, "cpe-head-missing", name)
            got = tuple(outputs(net, plan).shape)
            want = (4, (len(plan.metrics or {}) + 1) * plan.a)
            ctx.expect(got == want, "cpe-head-size", f"{name}: {got} want {want}")
        if plan.cpe:
            ctx.expect(not (storages(t.reward_network) & storages(t.q_network_cpe)), "cpe-heads-shared", "")
    builder = {"DiscreteCRR": "critic_net_builder", "SAC": "critic_net_builder", "TD3": "critic_net_builder"}.get(kind, "net_builder")
    main = getattr(t, "q1_network", None)
    if main is None:
        main = t.q_network
    sizes = [("critic", main, list(plan.cfg[builder].values())[0]["sizes"])]
    if hasattr(t, "actor_network"):
        sizes.append(("actor", t.actor_network, list(plan.cfg["actor_net_builder"].values())[0]["sizes"]))
    if kind == "SAC" and plan.value:
        sizes.append(("value", t.value_network, list(plan.cfg["value_net_builder"].values())[0]["sizes"]))
    if plan.cpe and kind in ("DiscreteDQN", "DiscreteQRDQN", "DiscreteCRR"):
        sizes.append(("cpe", t.q_network_cpe, list(plan.cfg["cpe_net_builder"].values())[0]["sizes"]))
    for who, net, want in sizes:
        outs = {p.shape[0] for p in net.parameters() if p.dim() == 2}
        ctx.expect(set(want) <= outs, "network-sizes", f"{who}: layers {outs} want {want}")
    if kind in ("DiscreteDQN", "DiscreteC51DQN"):
        ctx.expect(tuple(outputs(t.q_network, plan).shape) == (4, plan.a), "action-outputs", "")
    if kind == "DiscreteQRDQN":
        ctx.expect(tuple(outputs(t.q_network, plan).shape) == (4, plan.a, plan.o["num_atoms"]), "action-outputs", "")
    if kind == "ParametricDQN":
        with torch.no_grad():
            got = tuple(t.reward_network(feats(3, plan.sdim), feats(3, plan.a)).shape)
        ctx.expect(got == (3, len(plan.metrics or {}) + 1), "metric-outputs", f"{got}")


def compare(ctx, rng, plan, t):
    """the same batches through the manager's trainer and one built directly from the options"""
    nets = {n: copy.deepcopy(getattr(t, n, None)) for n in NETS[plan.kind]}
    ref = TRAINERS[plan.kind](**nets, **plan.keywords())
    attach(t)
    attach(ref)
    opts, ropts = t.configure_optimizers(), ref.configure_optimizers()
    ctx.require(len(opts) == len(ropts), "optimizer-count", f"{len(opts)} want {len(ropts)}")
    start = {n: p.clone() for n, p in t.named_parameters()}
    for k in range(3):
        b = plan.batch(rng)
        ctx.saw("compared_batches")
        seed = rng.randrange(1 << 30)
        for mod, os_ in ((t, opts), (ref, ropts)):
            torch.manual_seed(seed)
            mod.train()
            drive(mod, b, k, os_, lambda *a: None, step=True)
        mine, other = dict(t.named_parameters()), dict(ref.named_parameters())
        ctx.require(set(mine) == set(other), "parameters", f"{sorted(set(mine) ^ set(other))[:4]}")
        for n in mine:
            ctx.saw("parameters_compared")
            if not torch.isfinite(other[n]).all():
                continue
            ctx.close(mine[n], other[n], "options-not-honoured", rtol=1e-4, atol=1e-5)
    ctx.saw("moved", any(not torch.equal(start[n], p) for n, p in t.named_parameters()))


def one(v, p, i):
    return v[i : i + 1], p[i : i + 1]


def distribution(ctx, mech, act, scores, temperature):
    """the softmax policy's stated probabilities and its draws"""
    probs = torch.softmax(scores / temperature, 1)[0]
    if float(scores[torch.isfinite(scores)].abs().max()) > 1e4 * temperature:
        act()
        return  # the scores' rounding exceeds the temperature
    counts = [0] * probs.shape[0]
    for _ in range(60):
        out = act()
        ctx.saw("acts")
        a = int(out.action.argmax(-1))
        counts[a] += 1
        ctx.expect(abs(float(out.log_prob) - float(torch.log(probs[a]))) < 2e-2 * (1 + abs(float(torch.log(probs[a])))), mech + "-probability", f"{float(out.log_prob)} want {float(torch.log(probs[a]))} for {scores.tolist()}")
    ctx.saw("softmax_acts")
    ctx.expect(multinomial_ok(counts, probs.tolist()), mech + "-distribution", f"{counts} for {probs.tolist()}")


def greedy(ctx, mech, out, scores):
    a = out.action
    ctx.saw("acts")
    ctx.require(tuple(a.shape) == tuple(scores.shape), mech + "-shape", f"{tuple(a.shape)}")
    ctx.expect(sorted(a[0].tolist()) == [0] * (a.shape[1] - 1) + [1], mech + "-one-hot", f"{a.tolist()}")
    best, got = float(scores.max()), float(scores[0, int(a.argmax())])
    ctx.expect(got >= best - 1e-4 * (1 + abs(best)), mech + "-not-greedy", f"score {got} of {scores.tolist()}")
    ctx.expect(float(out.log_prob) == 0.0, mech + "-log-prob", f"{out.log_prob}")


def q_values(plan, t, x):
    net = t.q_network
    net.eval()
    with torch.no_grad():
        q = net(rlt.FeatureData(x))
    net.train()
    return q.mean(2) if q.dim() == 3 else q


def acting(ctx, rng, plan, m, t):
    """policies and serving modules against the trained network on the normalised observation"""
    n = rng.randint(1, 4)
    order = Preprocessor(plan.state, False).sorted_features
    raw = raw_rows(ctx, rng, plan.state, order, n)
    if plan.kind in ("ParametricDQN", "SlateQ"):  # these wrappers do not carry presence
        raw = (raw[0], torch.ones_like(raw[1]))
    x = preprocessed(ctx, plan.state, raw)
    modules = m.build_serving_modules()
    ctx.expect(sorted(modules) == sorted(m.serving_module_names()) and "default_model" in modules, "serving-module-names", f"{sorted(modules)} / {m.serving_module_names()}")
    ctx.saw("serving_modules", len(modules))
    ctx.saw("serving_rows", n)
    t.train()
    online, served = m.create_policy(serving=False), m.create_policy(serving=True)
    t.train()
    ctx.saw("policies", 2)

    if plan.kind in ("DiscreteDQN", "DiscreteC51DQN", "DiscreteQRDQN"):
        q = q_values(plan, t, x)
        names, values = modules["default_model"](rlt.ServingFeatureData(raw, {}, {}))
        ctx.expect(list(names) == plan.actions, "serving-action-names", f"{names}")
        ctx.close(values, q, "serving-values", rtol=1e-3, atol=1e-3)
        for i in range(n):
            for mask in (None, [rng.random() < 0.6 for _ in range(plan.a)]):
                if mask is not None:
                    mask[rng.randrange(plan.a)] = True
                    ctx.saw("masked_acts")
                    mask = np.array(mask, dtype=rng.choice([bool, np.uint8, float]))
                s = q[i : i + 1].clone()
                if mask is not None:
                    s[0, ~mask.astype(bool)] = float("-inf")
                greedy(ctx, "online", online.act(rlt.FeatureData(x[i : i + 1]), mask), s)
                if not plan.rl["softmax_policy"]:
                    greedy(ctx, "serving-policy", served.act(one(*raw, i), mask), s)
                elif i == 0:
                    distribution(ctx, "serving-policy", lambda: served.act(one(*raw, i), mask), s, plan.rl["temperature"])
        ctx.expect(t.q_network.training, "acting-leaves-evaluation-mode", "")
        return
    if plan.kind == "DiscreteCRR":
        t.q1_network.eval(), t.actor_network.eval()
        with torch.no_grad():
            q, act = t.q1_network(rlt.FeatureData(x)), t.actor_network(rlt.FeatureData(x)).action
        for name, want in (("dqn", q), ("actor_dqn", act)):
            names, values = modules[name](rlt.ServingFeatureData(raw, {}, {}))
            ctx.expect(list(names) == plan.actions, "serving-action-names", f"{name}: {names}")
            ctx.close(values, want, "serving-values", rtol=1e-3, atol=1e-3)
        ctx.close(modules["default_model"](raw), act, "serving-actor", rtol=1e-3, atol=1e-3)
        for i in range(n):
            ctx.saw("acts", 2)
            ctx.close(online.act(rlt.FeatureData(x[i : i + 1])).action, act[i : i + 1], "online-actor", rtol=1e-3, atol=1e-3)
            ctx.close(served.act(one(*raw, i)).action, act[i : i + 1], "served-actor", rtol=1e-3, atol=1e-3)
        ctx.expect(t.actor_network.training, "acting-leaves-evaluation-mode", "")
        return
    if plan.kind in ("SAC", "TD3"):
        lo = torch.tensor([plan.action[f].min_value for f in sorted(plan.action)])
        hi = torch.tensor([plan.action[f].max_value for f in sorted(plan.action)])
        t.actor_network.eval()
        for i in range(n):
            st = rlt.FeatureData(x[i : i + 1])
            torch.manual_seed(i)
            with torch.no_grad():
                direct = t.actor_network(st)
            t.actor_network.train()
            torch.manual_seed(i)
            got = online.act(st)
            ctx.saw("acts", 2)
            ctx.close(got.action, direct.action, "online-actor", rtol=1e-4, atol=1e-5)
            ctx.close(got.log_prob, direct.log_prob, "online-actor-log-prob", rtol=1e-3, atol=1e-3)
            ctx.expect(t.actor_network.training, "acting-leaves-evaluation-mode", "")
            out = served.act(one(*raw, i)).action
            ctx.expect(bool(((out >= lo - 1e-3 * (1 + lo.abs())) & (out <= hi + 1e-3 * (1 + hi.abs()))).all()), "served-action-outside-range", f"{out.tolist()} in {lo.tolist()}..{hi.tolist()}")
            if plan.kind == "SAC" and not plan.mean:
                continue
            a = direct.squashed_mean if plan.kind == "SAC" else direct.action
            want = (a.clamp(-1 + EPS, 1 - EPS) + 1 - EPS) / (2 * (1 - EPS)) * (hi - lo) + lo
            ctx.close(out, want, "served-actor", rtol=1e-3, atol=2e-4 * float((hi - lo).max()))
            t.actor_network.eval()
        t.train()
        return
    if plan.kind == "ParametricDQN":
        eye = torch.eye(plan.a)
        act = preprocessed(ctx, plan.action, (eye, torch.ones_like(eye)))
        t.q_network.eval()
        for i in range(n):
            st = rlt.FeatureData(x[i : i + 1].repeat(plan.a, 1))
            with torch.no_grad():
                q_raw, q = t.q_network(st, rlt.FeatureData(eye)).view(1, -1), t.q_network(st, rlt.FeatureData(act)).view(1, -1)
            names, values = modules["default_model"]((raw[0][i : i + 1].repeat(plan.a, 1), torch.ones(plan.a, len(order))), (eye, torch.ones_like(eye)))
            ctx.close(values.view(1, -1), q, "serving-values", rtol=1e-3, atol=1e-3)
            greedy(ctx, "serving-policy", served.act(one(*raw, i)), q)
            if i == 0:
                distribution(ctx, "online", lambda: online.act(rlt.FeatureData(x[:1])), q_raw, plan.rl["temperature"])
            ctx.expect(t.q_network.training, "acting-leaves-evaluation-mode", "") if i == 0 else None
            t.q_network.eval()
        t.train()
        return
    # SlateQ: top-k of softmax(value) * q
    c, k = plan.candidates, min(plan.slate, plan.candidates)
    iorder = Preprocessor(plan.item, False).sorted_features
    for i in range(n):
        docs = raw_rows(ctx, rng, plan.item, iorder, c)[0]
        d = preprocessed(ctx, plan.item, (docs, torch.ones_like(docs)))
        value = torch.randn(1, c)
        t.q_network.eval()
        with torch.no_grad():
            q = t.q_network(rlt.FeatureData(x[i : i + 1].repeat(c, 1)), rlt.FeatureData(d)).view(1, c)
        t.q_network.train()
        score = torch.softmax(value, 1) * q
        best = score.topk(k, 1).values
        for who, pol, s, f in (("online", online, x[i : i + 1], d), ("serving-policy", served, raw[0][i : i + 1], docs)):
            out = pol.act(rlt.FeatureData(s, candidate_docs=rlt.DocList(float_features=f.unsqueeze(0), mask=torch.ones(1, c, dtype=torch.bool), value=value)))
            ctx.saw("acts")
            ctx.require(tuple(out.action.shape) == (1, k) and len(set(out.action[0].tolist())) == k, who + "-slate", f"{out.action.tolist()}")
            ctx.close(score[0, out.action[0]], best[0], who + "-not-top", rtol=1e-3, atol=1e-4)
            ctx.expect(t.q_network.training, "acting-leaves-evaluation-mode", "")


def manager(ctx, kind, i):
    rng = ctx.sub(f"{kind}/{i}")
    ctx.seed_all(f"{kind}/{i}")
    plan = Plan(rng, kind)
    if kind == "SlateQ":
        plan.slate = plan.cfg["slate_size"] = min(plan.slate, plan.candidates)
    with ctx.case(kind, dict(cfg=plan.cfg, metrics=plan.metrics, state={k: v.feature_type for k, v in plan.state.items()})):
        m, t = construct(ctx, rng, plan)
        architecture(ctx, plan, m, t)
        if kind in ("SAC", "TD3"):
            pol = m.create_policy(serving=False)  # acts with whatever the network has become since
        compare(ctx, rng, plan, t)
        acting(ctx, rng, plan, m, t)
        m.destroy_trainer()
        refuses(ctx, "destroyed-trainer", lambda: m.trainer)


def memory_batch(rng, n, seq, s, a):
    act = torch.zeros(seq, n, a)
    for i in range(seq):
        for j in range(n):
            act[i, j, rng.randrange(a)] = 1
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(torch.randn(seq, n, s)), next_state=rlt.FeatureData(torch.randn(seq, n, s)), action=act, reward=torch.randn(seq, n), time_diff=torch.ones(seq, n), not_terminal=torch.ones(seq, n), step=None, valid_next_seq_len=torch.full((n, 1), seq, dtype=torch.long))


def world(ctx, i):
    rng = ctx.sub(f"world/{i}")
    ctx.seed_all(f"world/{i}")
    state = feature_set(rng, max_n=3)
    s = total(state)
    kind = rng.choice(["WorldModel", "CrossEntropyMethod", "CrossEntropyMethod", "Seq2RewardModel"])
    discrete = rng.random() < 0.4
    if discrete:
        action = {f: NormalizationParameters(feature_type="DISCRETE_ACTION") for f in rng.sample(range(30), rng.randint(2, 3))}
    else:
        action = feature_set(rng, types=["CONTINUOUS_ACTION"], n=rng.randint(1, 4))
    a = len(action)
    norm = dict(state=NormalizationData(dense_normalization_parameters=state), action=NormalizationData(dense_normalization_parameters=action))
    mdn = dict(hidden_size=rng.randint(2, 6), num_hidden_layers=rng.randint(1, 2), num_gaussians=rng.randint(1, 3), action_dim=a, learning_rate=rng.choice([0.01, 0.1]), reward_loss_weight=rng.choice([1.0, 3.0]),
               next_state_loss_weight=rng.choice([1.0, 0.2]), not_terminal_loss_weight=rng.choice([0.0, 0.4, 1.0]), fit_only_one_next_step=False, minibatch_size=rng.choice([4, 16]))
    if kind == "WorldModel":
        cfg = dict(trainer_param=mdn)
    elif kind == "Seq2RewardModel":
        sq = dict(learning_rate=rng.choice([0.01, 0.1]), multi_steps=rng.randint(1, 3), action_names=[f"a{j}" for j in range(a)], gamma=rng.choice([1.0, 0.5]), batch_size=16)
        cfg = dict(trainer_param=sq, net_builder={"Seq2RewardNetBuilder": dict(action_dim=a, num_hiddens=rng.randint(2, 5), num_hidden_layers=rng.randint(1, 2))})
    else:
        cfg = dict(trainer_param=dict(plan_horizon_length=rng.randint(1, 3), num_world_models=rng.randint(1, 3), cem_population_size=8, cem_num_iterations=rng.choice([1, 2]), ensemble_population_size=2, num_elites=3, mdnrnn=mdn,
                                      rl=dict(gamma=rng.choice([1.0, 0.5])), alpha=0.25, epsilon=0.0))
    with ctx.case(kind, dict(cfg=cfg, action={k: (p.feature_type, p.min_value, p.max_value) for k, p in action.items()})):
        ctx.saw("world_models")
        m = ModelManager__Union(**{kind: copy.deepcopy(cfg)}).value
        t = m.initialize_trainer(False, RewardOptions(), norm)
        refuses(ctx, "second-initialisation", lambda: m.initialize_trainer(False, RewardOptions(), norm))
        if kind == "Seq2RewardModel":
            ctx.require(type(t) is Seq2RewardTrainer, "trainer-type", f"{type(t)}")
            ref = Seq2RewardTrainer(seq2reward_network=copy.deepcopy(t.seq2reward_network), params=Seq2RewardTrainerParameters(**cfg["trainer_param"]))
            ref.step_predict_network.load_state_dict(t.step_predict_network.state_dict())
            b = memory_batch(rng, 3, cfg["trainer_param"]["multi_steps"], s, a)
            for mod in (t, ref):
                torch.manual_seed(3)
                mod.train(b)
            pairs = [(t.seq2reward_network, ref.seq2reward_network)]
            for x, y in pairs:
                for p, r in zip(x.parameters(), y.parameters()):
                    ctx.saw("parameters_compared")
                    ctx.close(p, r, "options-not-honoured", rtol=1e-4, atol=1e-5)
            return
        trainers = [t] if kind == "WorldModel" else t.world_model_trainers
        ctx.require(type(t) is (MDNRNNTrainer if kind == "WorldModel" else CEMTrainer), "trainer-type", f"{type(t)}")
        if kind == "CrossEntropyMethod":
            ctx.expect(len(trainers) == cfg["trainer_param"]["num_world_models"], "world-model-count", f"{len(trainers)}")
            nets = [x.memory_network for x in trainers]
            planned = list(t.cem_planner_network.mem_net_list)
            ctx.expect([id(x) for x in planned] == [id(x) for x in nets], "planner-uses-other-models", "")
            for x, y in itertools.combinations(nets, 2):
                ctx.expect(not ({p.data_ptr() for p in x.mdnrnn.parameters()} & {p.data_ptr() for p in y.mdnrnn.parameters()}), "world-models-shared", "")
                ctx.expect(not all(torch.equal(p, r) for p, r in zip(x.mdnrnn.parameters(), y.mdnrnn.parameters())), "world-models-identical", "")
        refs = [MDNRNNTrainer(memory_network=copy.deepcopy(x.memory_network), params=MDNRNNTrainerParameters(**mdn)) for x in trainers]
        for _ in range(2):
            b = memory_batch(rng, 3, 2, s, a)
            torch.manual_seed(5)
            t.train(b)
            torch.manual_seed(5)
            for r in refs:
                r.train(b)
        for x, r in zip(trainers, refs):
            for p, q in zip(x.memory_network.mdnrnn.parameters(), r.memory_network.mdnrnn.parameters()):
                ctx.saw("parameters_compared")
                ctx.close(p, q, "options-not-honoured", rtol=1e-4, atol=1e-5)
        if kind == "WorldModel":
            return
        pol = m.create_policy(serving=rng.random() < 0.5)
        tried = []
        for net in nets:
            net.register_forward_pre_hook(lambda mod, args: tried.append(args[1].float_features if hasattr(args[1], "float_features") else args[1]))
        for _ in range(2):
            out = pol.act(rlt.FeatureData(torch.randn(1, s)))
            ctx.saw("acts")
            ctx.require(tuple(out.action.shape) == (1, a), "planned-shape", f"{tuple(out.action.shape)}")
            if discrete:
                ctx.expect(sorted(out.action[0].tolist()) == [0] * (a - 1) + [1], "planned-one-hot", f"{out.action}")
                continue
            ctx.saw("bounds")
            ctx.expect(bool((out.action.abs() <= 1.0 + 1e-5).all()), "planned-action-outside-training-range", f"{out.action.tolist()}")
        if discrete or cfg["trainer_param"]["cem_num_iterations"] == 1:
            calls = []
            for logit in (40.0, -40.0):  # a world that never ends, and one that always does
                hooks = [net.register_forward_hook(lambda mod, args, out: dataclasses.replace(out, not_terminal=torch.full_like(out.not_terminal, logit))) for net in nets]
                k = len(tried)
                pol.act(rlt.FeatureData(torch.randn(1, s)))
                calls.append(len(tried) - k)
                [h.remove() for h in hooks]
            ctx.saw("terminal_plans")
            steps = cfg["trainer_param"]["plan_horizon_length"] if mdn["not_terminal_loss_weight"] > 0 else 1
            ctx.expect(calls[0] == calls[1] * steps, "planning-past-the-terminal", f"{calls} world steps tried, horizon {cfg['trainer_param']['plan_horizon_length']}, terminal weight {mdn['not_terminal_loss_weight']}")
        if not discrete:
            seen = torch.cat([x.reshape(-1, a) for x in tried])
            ctx.saw("plans_tried", len(seen))
            for j, f in enumerate(Preprocessor(action, False).sorted_features):
                lo, hi = action[f].min_value, action[f].max_value
                got = (float(seen[:, j].min()), float(seen[:, j].max()))
                ctx.expect(lo - 1e-4 * (1 + abs(lo)) <= got[0] and got[1] <= hi + 1e-4 * (1 + abs(hi)), "planned-with-bounds-of-another-action", f"action {f}: tried {got}, declared {lo}..{hi}; ids in order given {list(action)}")


def malformed(ctx, i):
    rng = ctx.sub(f"bad/{i}")
    kind = rng.choice(list(TRAINERS))
    plan = Plan(rng, kind)
    opts = []
    if kind in DISCRETE:
        opts.append(("too-few-actions", lambda c: c["trainer_param"].update(actions=rng.choice([[], ["only"]]), rl={})))
    if kind in ("DiscreteC51DQN", "DiscreteQRDQN"):
        opts.append(("minibatch-size", lambda c: c["trainer_param"].update(minibatch_size=rng.choice([7, 12, 1]))))
    if kind in ("SAC", "TD3", "ParametricDQN"):
        opts.append(("whitelist", lambda c: c.update({rng.choice(["state_preprocessing_options", "action_preprocessing_options"]): dict(whitelist_features=[1])})))
    if kind == "SlateQ":
        opts.append(("slate", lambda c: c.update({rng.choice(["slate_size", "num_candidates"]): rng.choice([0, -1])})))
        opts.append(("slate-whitelist", lambda c: c.update({rng.choice(["state_preprocessing_options", "item_preprocessing_options"]): dict(whitelist_features=[1])})))
        opts.append(("sequence-feature", lambda c: c.update(item_preprocessing_options=dict(sequence_feature_id=3))))
    if not opts:
        return
    what, change = rng.choice(opts)
    with ctx.case("malformed", (kind, what)):
        plan.build()
        change(plan.cfg)
        refuses(ctx, "malformed-" + what, plan.build, AssertionError, ValueError, TypeError)


def run(ctx):
    for kind in TRAINERS:
        with ctx.part(kind):
            for i in range(ctx.n(16, 120)):
                manager(ctx, kind, i)
    with ctx.part("world"):
        for i in range(ctx.n(40, 250)):
            world(ctx, i)
    with ctx.part("malformed"):
        for i in range(ctx.n(40, 200)):
            malformed(ctx, i)
