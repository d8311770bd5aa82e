"""G04: offline tables, normalisers and the scores of published policies come from the episodes that were run."""
import vf.quiet  # noqa
import vf.minispark  # noqa  (the workflow package imports pyspark)
import functools
import itertools
import json
import math
import os
import types

import gym
import numpy as np
import pandas as pd
import torch
import reagent.training  # noqa  (import order)
import reagent.types as rlt
from reagent.gym.envs.gym import Gym
from reagent.gym.utils import build_action_normalizer, build_normalizer, build_state_normalizer
from reagent.models.actor import FullyConnectedActor
from reagent.models.dqn import FullyConnectedDQN
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE, NormalizationData, NormalizationKey, NormalizationParameters
from reagent.prediction import predictor_wrapper as pw
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.publishers.file_system_publisher import FileSystemPublisher
from reagent.publishers.no_publishing import NoPublishing
from reagent.publishers.union import ModelPublisher__Union
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df
from reagent.workflow import gym_batch_rl
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.spark_utils import get_spark_session
from reagent.workflow.types import RLTrainingOutput, TableSpec

from checks.G01 import make_env
from vf import minispark

RULE = (
    "Scripted environments (discrete, masked, box; episodes of one step and longer; step caps) are registered with gym and log every reset "
    "and step while offline data is generated from them with the random policy. The saved table must hold each logged step exactly once, "
    "keyed by a textual episode id and step number, with the observation, action, probability, reward and possible actions of that step; "
    "the same seed must give the same table. Buffers filled directly, also beyond their capacity, must convert without loss, repetition or "
    "change. The table handed to the timeline job must be that table, and the request must cover its dates and columns. Normalisers built "
    "for an environment must match its spaces or its own declaration. Models with known weights are published and evaluated in "
    "deterministic environments whose episodes differ: evaluation must pass exactly when the average return of the newest publication of "
    "that model and module reaches the bar, having run the stated number of episodes and steps."
)
REQUIRED = {"tables": 30, "rows": 500, "discrete_tables": 8, "box_tables": 8, "terminal_rows": 100, "same_seed": 8, "masked_tables": 2, "capped_tables": 4, "converted": 30, "wrapped": 8, "timeline_requests": 12,
            "normalizers": 60, "declared_normalizers": 4, "refused": 30, "evaluations": 24, "passes": 14, "fails": 14, "episodes": 60, "limited_evaluations": 6, "masked_evaluations": 3, "actor_evaluations": 5, "replaced_publications": 6}

IDS = itertools.count()


def register(factory):
    name = f"VfOffline{next(IDS)}-v0"
    gym.envs.registration.register(id=name, entry_point=factory)
    return name


def plain(x):
    return x.item() if hasattr(x, "item") else x


def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------------ tables
def same_features(got, want):
    return isinstance(got, dict) and sorted(got) == list(range(len(want))) and all(close(plain(got[i]), float(want[i])) for i in range(len(want)))


def check_table(ctx, df, want, discrete, all_actions, label):
    """want: {(episode, step): dict(state, action, prob, reward)} -> the table, up to the naming of the episodes"""
    ctx.saw("rows", len(df))
    base = {"ds", "state_features", "action", "mdp_id", "sequence_number", "action_probability", "reward", "metrics"}
    cols = set(df.columns)
    ctx.require(base <= cols, "columns-missing", f"{label}: {sorted(cols)}")
    ctx.expect(("possible_actions" in cols) == ("possible_actions_mask" in cols) and (not discrete or "possible_actions" in cols), "possible-action-columns", f"{label}: {sorted(cols)}")
    ctx.expect(len(df) == len(want), "row-count", f"{label}: {len(df)} rows of {len(want)} steps")
    ctx.expect(all(isinstance(m, str) for m in df["mdp_id"]), "mdp-id-not-text", f"{label}: {df['mdp_id'].iloc[0]!r}")
    keys = [(str(m), int(s)) for m, s in zip(df["mdp_id"], df["sequence_number"])]
    ctx.expect(len(set(keys)) == len(keys), "step-repeated", f"{label}: {len(keys) - len(set(keys))} of {len(keys)} rows")
    missing = {(str(e), t) for e, t in want} - set(keys)
    ctx.expect(not missing, "step-missing", f"{label}: {sorted(missing)[:5]}")
    seen = {str(plain(w["action"])) for w in want.values()} if discrete else set()
    lists = set()
    wanted = {(str(e), t): w for (e, t), w in want.items()}
    for j, key in enumerate(keys):
        row = df.iloc[j]
        w = wanted.get(key)
        if w is None:
            ctx.expect(False, "row-of-no-step", f"{label}: {key}")
            continue
        ctx.expect(same_features(row["state_features"], w["state"]), "state-features", f"{label} {key}: {row['state_features']} want {w['state']}")
        if discrete:
            ctx.expect(row["action"] == str(plain(w["action"])), "action", f"{label} {key}: {row['action']!r} want {w['action']}")
            pa, pm = list(row["possible_actions"]), list(row["possible_actions_mask"])
            lists.add(tuple(pa))
            ctx.expect(len(pa) == len(set(pa)) and seen <= set(pa) <= set(all_actions), "possible-actions", f"{label} {key}: {pa}, taken {sorted(seen)}")
            ctx.expect(pm == [1] * len(pa), "possible-actions-mask", f"{label} {key}: {pm} for {pa}")
            ctx.saw("terminal_rows", w["terminal"])
        else:
            ctx.expect(same_features(row["action"], np.ravel(w["action"])), "action", f"{label} {key}: {row['action']} want {w['action']}")
        ctx.expect(close(row["action_probability"], w["prob"], 1e-4), "action-probability", f"{label} {key}: {row['action_probability']} want {w['prob']}")
        ctx.expect(close(row["reward"], float(w["reward"])), "reward", f"{label} {key}: {row['reward']} want {w['reward']}")
        ctx.expect(set(row["metrics"]) == {"reward"} and row["metrics"]["reward"] == row["reward"], "metrics", f"{label} {key}: {row['metrics']}")
    ctx.expect(len(set(df["ds"])) == 1, "dates", f"{label}: {set(df['ds'])}")
    ctx.expect(len(lists) <= 1, "possible-actions-change", f"{label}: {sorted(lists)}")


def steps_of(script, n):
    """the log of a scripted environment -> what the table has to hold"""
    out, e, mask = {}, -1, None
    box = isinstance(script.action_space, gym.spaces.Box)
    lo, hi = CONTINUOUS_TRAINING_ACTION_RANGE
    for item in script.log:
        if item[0] == "reset":
            e += 1
            continue
        _, tape, t, action, _ = item
        obs, mask = script.tapes[tape % len(script.tapes)][t][0], script.tapes[tape % len(script.tapes)][t][2]
        reward = script.tapes[tape % len(script.tapes)][t][1]
        k = (1 / (hi - lo)) ** action.size if box else 1.0 / (script.action_space.n if mask is None else mask.sum())
        out[(e, t)] = dict(state=obs, action=action, prob=float(k), reward=float(reward), terminal=t == len(script.tapes[tape % len(script.tapes)]) - 2)
    return out


def hand_over(env_name, script):
    return script


def offline(ctx, k):
    rng, r = ctx.sub(f"t{k}"), ctx.nprng(f"t{k}")
    kind = ["discrete", "box"][k % 2]
    cap = rng.choice([None, None, rng.randint(1, 6)])
    script, _ = make_env(r, space=kind, cap=cap, unit=True)
    n = rng.choice([2, 2, rng.randint(3, 40), rng.randint(3, 40)])
    seed = rng.randrange(1000)
    path = os.path.abspath(f"table{k}.pkl")
    with ctx.case("table", dict(kind=kind, n=n, cap=cap, masks=bool(script.masks), lengths=[len(t) - 1 for t in script.tapes]), distinct=k):
        tables = []
        for again in range(2 if k % 3 == 0 else 1):
            script.e, script.log = -1, []
            ctx.seed_all(f"other{k}{again}")
            gym_batch_rl.offline_gym(register(functools.partial(hand_over, None, script)), path, n, None, seed=seed)
            df = pd.read_pickle(path)
            tables.append(df)
            want = steps_of(script, n)
            ctx.require(len(want) == n, "steps-taken", f"{len(want)} want {n}")
            check_table(ctx, df, want, kind == "discrete", [str(a) for a in range(getattr(script.action_space, "n", 0))], f"table{k}")
            ctx.saw("tables")
            ctx.saw(f"{kind}_tables")
            ctx.saw("masked_tables", bool(script.masks))
            ctx.saw("capped_tables", cap is not None)
        if len(tables) == 2:
            ctx.saw("same_seed")
            ctx.expect(tables[0].to_dict("records") == tables[1].to_dict("records"), "same-seed-another-table", "")
        timeline(ctx, rng, path, tables[-1])


REQUESTS = []


def timeline(ctx, rng, path, df):
    """the request made to the timeline job"""
    spark = get_spark_session()
    type(spark)._jvm = types.SimpleNamespace(com=types.SimpleNamespace(facebook=types.SimpleNamespace(spark=types.SimpleNamespace(rl=types.SimpleNamespace(Timeline=types.SimpleNamespace(main=REQUESTS.append))))))
    REQUESTS.clear()
    minispark.VIEWS.clear()
    name = f"Out{next(IDS)}"
    gym_batch_rl.timeline_operator(path, TableSpec(table_name=name))
    ctx.require(len(REQUESTS) == 1, "requests", f"{REQUESTS}")
    q = json.loads(REQUESTS[0])
    ctx.saw("timeline_requests")
    ctx.expect(q["outputTableName"] == name, "output-table", f"{q}")
    view = minispark.VIEWS.get(q["inputTableName"].lower())
    ctx.require(view is not None, "input-view", f"{q['inputTableName']} not in {list(minispark.VIEWS)}")
    ctx.expect(q["inputTableName"].lower() != name.lower(), "input-is-output", f"{q}")
    rows = view.toPandas()
    ctx.expect(rows.to_dict("records") == df.to_dict("records"), "another-table-handed-over", f"{len(rows)} rows of {len(df)}")
    ctx.expect(all(q["startDs"] <= d <= q["endDs"] for d in df["ds"]), "dates-not-covered", f"{q['startDs']}..{q['endDs']}")
    ctx.expect(q["addTerminalStateRow"] is True, "terminal-rows-dropped", f"{q}")
    ctx.expect(q["includePossibleActions"] == ("possible_actions" in df), "possible-actions-request", f"{q}")
    ctx.expect(set(q["rewardColumns"]) == {"reward", "metrics"}, "reward-columns", f"{q}")


def converted(ctx, k):
    """buffers filled by hand, also beyond their capacity"""
    rng, r = ctx.sub(f"c{k}"), ctx.nprng(f"c{k}")
    discrete = k % 2 == 0
    dim, adim = rng.randint(1, 3), 1 if discrete else rng.randint(1, 3)
    total = rng.randint(2, 40)
    capacity = rng.choice([total, total + 7, max(2, total // 2), max(2, total - 3)])
    with ctx.case("converted", dict(discrete=discrete, total=total, capacity=capacity), distinct=k):
        rb = ReplayBuffer(replay_capacity=capacity, batch_size=rng.choice([1, 5]))
        pushed, mdp, seq = {}, rng.randrange(1000), 0
        for j in range(total):
            terminal = rng.random() < 0.3 or j == total - 1
            row = dict(state=r.normal(size=dim).astype(np.float32), action=rng.randint(0, 3) if discrete else r.normal(size=adim).astype(np.float32), prob=rng.uniform(0.01, 1.0), reward=rng.gauss(0, 3), terminal=terminal)
            rb.add(observation=row["state"], action=row["action"], reward=row["reward"], terminal=terminal, mdp_id=mdp, sequence_number=seq, log_prob=math.log(row["prob"]))
            pushed[(mdp, seq)] = row
            seq += 1
            if terminal:
                mdp, seq = mdp + rng.randint(1, 3), 0
        ctx.seed_all(f"c{k}")
        df = replay_buffer_to_pre_timeline_df(discrete, rb)
        if total > capacity:  # which of them the buffer still offers is the buffer's own property (R01)
            ctx.saw("wrapped")
            ctx.expect(len(df) == rb.size, "row-count", f"{len(df)} rows of {rb.size} stored")
            have = {(str(m), int(s)) for m, s in zip(df["mdp_id"], df["sequence_number"])}
            pushed = {key: v for key, v in pushed.items() if (str(key[0]), key[1]) in have}
            ctx.expect(len(pushed) == len(have), "row-of-no-step", f"{have}")
        ctx.saw("converted")
        check_table(ctx, df, pushed, discrete, ["0", "1", "2", "3"], f"converted{k}")


# ------------------------------------------------------------------ normalisers
class SpacesEnv(gym.Env):
    def __init__(self, observation_space, action_space):
        self.observation_space, self.action_space = observation_space, action_space

    def reset(self):
        return self.observation_space.sample()

    def step(self, action):
        return self.observation_space.sample(), 0.0, True, {}


def bounds(rng, n):
    lo = np.array([rng.choice([rng.uniform(-9, 0), 0.0, -1.0]) for _ in range(n)], np.float32)
    return lo, (lo + np.array([rng.choice([1.0, rng.uniform(0.1, 9)]) for _ in range(n)], np.float32)).astype(np.float32)


def check_norm(ctx, got, feature_type, lo, hi, label):
    ctx.saw("normalizers")
    ctx.require(got is not None and list(got) == list(range(len(lo))), "normalised-features", f"{label}: {got}")
    for i, p in got.items():
        ctx.expect(p.feature_type == feature_type, "feature-type", f"{label}[{i}]: {p.feature_type}")
        ctx.expect((p.mean, p.stddev) == (0, 1) and not p.possible_values and not p.quantiles, "normalisation", f"{label}[{i}]: {p}")
        for have, want in ((p.min_value, lo[i]), (p.max_value, hi[i])):
            ctx.expect((have is None) == (want is None) and (want is None or close(have, float(want))), "normalisation-bounds", f"{label}[{i}]: {have} want {want}")


def normalizers(ctx, k):
    rng = ctx.sub(f"n{k}")
    S = rng.randint(1, 5)
    slo, shi = bounds(rng, S)
    box = k % 2 == 0
    with ctx.case("normalizer", dict(state=S, box=box), distinct=k):
        obs = gym.spaces.Box(slo, shi)
        if box:
            alo, ahi = bounds(rng, rng.randint(1, 4))
            act, ft = gym.spaces.Box(alo, ahi), "CONTINUOUS_ACTION"
        else:
            act, ft = gym.spaces.Discrete(rng.randint(1, 6)), "DISCRETE_ACTION"
            alo = ahi = [None] * act.n
        env = Gym(env_name=register(functools.partial(SpacesEnv, obs, act)))
        got = build_normalizer(env)
        ctx.expect(set(got) == {NormalizationKey.STATE, NormalizationKey.ACTION}, "normaliser-keys", f"{list(got)}")
        for source, g in (("all", got[NormalizationKey.STATE].dense_normalization_parameters), ("one", build_state_normalizer(env))):
            check_norm(ctx, g, "CONTINUOUS", slo, shi, f"state {source}")
        for source, g in (("all", got[NormalizationKey.ACTION].dense_normalization_parameters), ("one", build_action_normalizer(env))):
            check_norm(ctx, g, ft, alo, ahi, f"action {source}")
        if k % 4 == 0:  # the environment's own declaration
            own = {"anything": NormalizationData(dense_normalization_parameters={7: NormalizationParameters(feature_type="CONTINUOUS", mean=3.0, stddev=2.0)})}
            inner = SpacesEnv(obs, act)
            inner.normalization_data = own
            env = Gym(env_name=register(functools.partial(hand_over, None, inner)))
            ctx.expect(build_normalizer(env) == own, "declared-normalisation-ignored", "")
            ctx.saw("declared_normalizers")
        image = Gym(env_name=register(functools.partial(SpacesEnv, gym.spaces.Dict({"x": obs}), act)))
        ctx.expect(build_state_normalizer(image) is None, "image-normaliser", "")
        for o, a in ((gym.spaces.Box(-1, 1, (2, S), np.float32), act), (gym.spaces.Discrete(3), act), (obs, gym.spaces.Box(-1, 1, (2, 2), np.float32)), (obs, gym.spaces.MultiDiscrete([2, 3]))):
            ctx.saw("refused")
            try:
                got = build_normalizer(Gym(env_name=register(functools.partial(SpacesEnv, o, a))))
                ctx.expect(False, "unsupported-space-accepted", f"{o} {a}: {got}")
            except (AssertionError, NotImplementedError):
                pass


# ------------------------------------------------------------------ evaluation
class ScoreEnv(gym.Env):
    """Deterministic; what follows a step depends on the action; every reset claims the next episode of a shared folder."""

    def __init__(self, seed, S, discrete, A, masks, lengths, folder):
        self.folder, self.lengths, self.discrete, self.A = folder, lengths, discrete, A
        r = np.random.default_rng(seed)
        self.start = np.clip(r.normal(size=(len(lengths), S)), -4, 4).astype(np.float32)
        self.move = r.normal(size=(S, A)).astype(np.float32)
        self.turn = (r.normal(size=(S, S)) * 0.7).astype(np.float32)
        self.pay = r.normal(size=(S, A)).astype(np.float32) * 2
        self.masks = None if not masks else [m for m in (r.random((8, A)) < 0.6)]
        self.observation_space = gym.spaces.Box(-5.0, 5.0, (S,), np.float32)
        self.action_space = gym.spaces.Discrete(A) if discrete else gym.spaces.Box(-3.0, 4.0, (A,), np.float32)
        if masks:
            for i, m in enumerate(self.masks):
                m[i % A] = True
            self.possible_actions_mask = None

    def note(self, kind):
        j = 0
        while True:
            try:
                os.close(os.open(os.path.join(self.folder, f"{kind}{j}"), os.O_CREAT | os.O_EXCL))
                return j
            except FileExistsError:
                j += 1

    def begin(self, e):
        self.e, self.t, self.obs = e % len(self.lengths), 0, self.start[e % len(self.lengths)]
        return self.obs

    def mask(self):
        return None if self.masks is None else self.masks[(self.t + self.e) % 8].astype(np.float32)

    def advance(self, action):
        v = np.eye(self.A, dtype=np.float32)[int(action)] if self.discrete else np.asarray(action, np.float32)
        reward = float(self.obs @ self.pay @ v) + 0.1 * self.t
        self.obs = np.clip(np.tanh(self.turn @ self.obs) * 2 + self.move @ v, -4, 4).astype(np.float32)
        self.t += 1
        return self.obs, reward, self.t >= self.lengths[self.e]

    def reset(self):
        obs = self.begin(self.note("reset"))
        if self.masks is not None:
            self.possible_actions_mask = self.mask()
        return obs.copy()

    def step(self, action):
        self.note(f"step{self.e}.")
        obs, reward, done = self.advance(action)
        if self.masks is not None:
            self.possible_actions_mask = self.mask()
        return obs.copy(), reward, done, {}


def norm(n):
    return {j: NormalizationParameters(feature_type="CONTINUOUS", mean=0.1 * j, stddev=1.0 + 0.5 * j) for j in range(n)}


class NearTie(Exception):
    """the greedy action depends on rounding"""


def build(ctx, label, discrete, S, A):
    """(scripted module, what it does)"""
    ctx.seed_all(label)
    np_, pre = norm(S), Preprocessor(norm(S), False)
    if discrete:
        net = FullyConnectedDQN(state_dim=S, action_dim=A, sizes=[6], activations=["tanh"])
    else:
        net = FullyConnectedActor(state_dim=S, action_dim=A, sizes=[6], activations=["tanh"])
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn_like(p))
    net.eval()

    def act(obs, mask):
        x = (torch.tensor(obs) - torch.tensor([np_[j].mean for j in range(S)])) / torch.tensor([np_[j].stddev for j in range(S)])
        with torch.no_grad():
            out = net(rlt.FeatureData(x.float().unsqueeze(0)))
        if not discrete:
            return -3.0 + (out.action[0].numpy() + 1) * 3.5
        q = out[0].numpy().copy()
        if mask is not None:
            q[mask == 0] = -np.inf
        top = np.sort(q)[-2:]
        if top[1] - top[0] < 1e-3 * max(1.0, abs(top[1])):
            raise NearTie
        return int(q.argmax())

    if discrete:
        module = pw.DiscreteDqnPredictorWrapper(pw.DiscreteDqnWithPreprocessor(net, pre, rlt.ModelFeatureConfig()), [str(a) for a in range(A)], rlt.ModelFeatureConfig())
    else:
        post = Postprocessor({j: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-3.0, max_value=4.0) for j in range(A)}, False)
        module = pw.ActorPredictorWrapper(pw.ActorWithPreprocessor(net, pre, post))
    return module, act


def evaluation(ctx, k):
    rng = ctx.sub(f"e{k}")
    discrete = k % 3 != 2
    masks = discrete and rng.random() < 0.4
    S, A = rng.randint(2, 3), rng.randint(2, 4) if discrete else rng.randint(1, 2)
    n = rng.choice([1, 1, rng.randint(2, 6)])
    lengths = [rng.randint(1, 6) for _ in range(n)]
    limit = rng.choice([None, None, rng.randint(1, 4)])
    crr = discrete and rng.random() < 0.5
    M = {a: t.__args__[0] for a, t in ModelManager__Union.__annotations__.items()}
    acts = [str(a) for a in range(A)]

    def manager(gamma):
        kind = "DiscreteCRR" if crr else "DiscreteDQN" if discrete else "TD3"
        tp = {"rl": {"gamma": gamma}}
        if discrete:
            tp["actions"] = acts
        return M[kind](trainer_param=tp)

    union = lambda m: ModelManager__Union.make_union_instance(m)  # noqa
    with ctx.case("evaluation", dict(discrete=discrete, masks=masks, n=n, lengths=lengths, limit=limit, crr=crr), distinct=k):
        pub = FileSystemPublisher(publishing_file=os.path.abspath(f"published{k}"))
        names = manager(0.9).serving_module_names()
        name = rng.choice(names)
        truth = {}
        for j in range(rng.randint(1, 3)):  # the newest publication of this model and module counts
            for gamma in rng.sample([0.9, 0.8], rng.randint(1, 2)) if j else [0.9, 0.8]:
                paths = {}
                for m in names:
                    module, act = build(ctx, f"e{k}{j}{gamma}{m}", discrete, S, A)
                    paths[m] = os.path.abspath(f"e{k}.{j}.{gamma}.{m}.torchscript")
                    torch.jit.save(module, paths[m])
                    ctx.saw("replaced_publications", (gamma, m) in truth)
                    truth[(gamma, m)] = act
                pub.publish(manager(gamma), RLTrainingOutput(output_paths=paths), {}, 1, None)
        gamma = rng.choice([0.9, 0.8])

        def play(folder):
            return ScoreEnv(1000 * ctx.seed + k, S, discrete, A, masks, lengths, folder)

        total, wanted_steps = [], []
        try:
            for e in range(n):
                env = play("nowhere")
                obs, done, score, t = env.begin(e), False, 0.0, 0
                while not done and (limit is None or t < limit):
                    obs, reward, done = env.advance(truth[(gamma, name)](obs, env.mask()))
                    score += reward
                    t += 1
                total.append(score)
                wanted_steps.append(t)
        except NearTie:
            ctx.saw("near_ties")
            return
        want = sum(total) / n
        slack = 1e-3 * max(1.0, max(abs(x) for x in total))
        for bar, ok in ((want - slack, True), (want + slack, False), (want - 50, True), (want + 50, False)):
            folder = os.path.abspath(f"ev{k}.{next(IDS)}")
            os.makedirs(folder)
            env_name = register(functools.partial(play, folder))
            kw = dict(env_name=env_name, model=union(manager(gamma)), publisher=ModelPublisher__Union.make_union_instance(pub), num_eval_episodes=n, passing_score_bar=bar)
            if name != "default_model":
                kw["module_name"] = name
            if limit is not None or rng.random() < 0.5:
                kw["max_steps"] = limit
            try:
                gym_batch_rl.evaluate_gym(**kw)
                passed = True
            except AssertionError:
                passed = False
            ctx.saw("evaluations")
            ctx.saw("passes" if ok else "fails")
            ctx.saw("episodes", n)
            ctx.saw("limited_evaluations", limit is not None)
            ctx.saw("masked_evaluations", bool(masks))
            ctx.saw("actor_evaluations", not discrete)
            ctx.expect(passed == ok, "passed-below-the-bar" if passed else "failed-above-the-bar", f"bar {bar}, average return {want} of {total}")
            files = os.listdir(folder)
            ctx.expect(sum(f.startswith("reset") for f in files) == n, "episodes-run", f"{sum(f.startswith('reset') for f in files)} want {n}")
            ctx.expect([sum(f.startswith(f"step{e}.") for f in files) for e in range(n)] == wanted_steps, "steps-run", f"{wanted_steps}")
        for bad in (dict(module_name="no_such_module"), dict(publisher=types.SimpleNamespace(value=NoPublishing())), dict(model=union(manager(0.123)))):
            ctx.saw("refused")
            try:
                gym_batch_rl.evaluate_gym(**{**kw, "passing_score_bar": -1e9, **bad})
                ctx.expect(False, "evaluates-without-a-model", f"{list(bad)}")
            except (AssertionError, ValueError):
                pass


def run(ctx):
    with ctx.part("tables"):
        for k in range(ctx.n(60, 500)):
            offline(ctx, k)
    with ctx.part("converted"):
        for k in range(ctx.n(60, 500)):
            converted(ctx, k)
    with ctx.part("normalizers"):
        for k in range(ctx.n(24, 120)):
            normalizers(ctx, k)
    with ctx.part("evaluation"):
        for k in range(ctx.n(21, 90)):
            evaluation(ctx, k)
