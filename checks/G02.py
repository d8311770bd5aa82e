"""G02: transitions survive insertion into and out of the replay buffer."""
import vf.quiet  # noqa
import collections
import dataclasses
from types import SimpleNamespace

import gym
import numpy as np
import torch
import torch.nn.functional as F
import reagent.training  # noqa
import reagent.types as rlt
from reagent.gym.agents.agent import Agent
from reagent.gym.agents.post_episode import train_post_episode
from reagent.gym.agents.post_step import add_replay_buffer_post_step
from reagent.gym.envs import ChangingArms, RecSim
from reagent.gym.envs.changing_arms import ID_LIST_FEATURE_ID, ID_LIST_OFFSET, ID_SCORE_LIST_FEATURE_ID, ID_SCORE_LIST_OFFSET
from reagent.gym.preprocessors import make_replay_buffer_trainer_preprocessor, make_trainer_preprocessor_online
from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter, RecSimReplayBufferInserter
from reagent.gym.preprocessors.trainer_preprocessor import PolicyNetworkInputMaker, get_possible_actions_for_gym
from reagent.gym.runners.gymrunner import run_episode
from reagent.gym.types import Trajectory, Transition
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.training.reagent_lightning_module import ReAgentLightningModule

from checks.G01 import Chooser, Script, make_env
from vf.poison import poisoned

RULE = (
    "Random episodes (recorded by the harness itself) are inserted transition by transition into replay buffers and every valid transition "
    "is sampled and converted by the preprocessor derived for a learner of each input type; each field is recomputed from the recording: "
    "observations, one-hot or rescaled actions, rewards, not-terminal masks, action masks, propensities and candidates, with next values "
    "zeroed or ignored only at terminals. Recommendation environments (the bundled one in its three modes and synthetic observation spaces) "
    "are compared document by document; whole episodes are converted for on-policy learners; ragged id lists are decoded row by row; "
    "the input types' constructors are checked field by field with labelled tensors."
)
REQUIRED = {"rows": 700, "terminal_rows": 100, "dqn": 150, "parametric": 100, "policy": 100, "memory": 100, "masked_rows": 40, "n_step_rows": 100, "boundary_actions": 40,
            "trajectories": 25, "one_step_trajectories": 6, "ragged_rows": 50, "empty_rows": 10, "all_empty": 2, "recsim_rows": 100, "recsim_obs": 40, "slate_rows": 60, "synthetic_rows": 100,
            "from_dict": 40, "docs": 20, "dispatch": 12}
ASSUMPTIONS = [
    "next values of terminal transitions are documented as garbage and are judged only where the conversion zeroes them",
    "action masks are judged for the discrete DQN input only: parametric and policy-gradient learners take no masks from environments",
]


def eq(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def learner(t, lightning=False):
    if lightning:
        class L(ReAgentLightningModule):
            def train_step_gen(self, training_batch: t, batch_idx: int):
                yield None
        return L()

    class T:
        def train(self, training_batch: t):
            self.got = training_batch
    return T()


def play(r, script, kind, episodes):
    """Transitions as the runner makes them, with distinct log probabilities."""
    out = []
    for e in range(episodes):
        tape = script.tapes[e % len(script.tapes)]
        for t in range(len(tape) - 1):
            m = tape[t][2]
            if kind == "discrete":
                ok = np.arange(script.action_space.n) if m is None else np.flatnonzero(m)
                a = np.array(int(r.choice(ok)))
            elif kind == "box":
                u = r.random(len(script.action_space.low)).astype(np.float32)
                a = np.float32(script.action_space.low + u * (script.action_space.high - script.action_space.low))
                a = np.clip(a, script.action_space.low, script.action_space.high)
            else:
                a = np.array([int(r.integers(n)) for n in script.action_space.nvec])
            out.append(Transition(mdp_id=e, sequence_number=t, observation=tape[t][0], action=a, reward=float(tape[t][1]), terminal=t == len(tape) - 2,
                                  log_prob=-float(r.random() * 3), possible_actions_mask=m))
    return out


def vectors(ctx, k):
    """discrete DQN, parametric DQN, policy network and memory network inputs"""
    r = ctx.nprng(f"vec{k}")
    ctx.seed_all(f"vec{k}")
    typ = ["dqn", "parametric", "policy", "memory"][k % 4]
    kind = {"dqn": "discrete", "parametric": "discrete", "policy": "box", "memory": ["discrete", "box"][int(r.integers(2))]}[typ]
    script, _ = make_env(r, space=kind, n=int(r.integers(2, 6)), maxlen=8, unit=True)
    if typ in ("parametric", "memory") and script.masks:
        script.masks = False
        script.tapes = [[(o, rew, None) for o, rew, _ in tape] for tape in script.tapes]
        del script.possible_actions_mask
    env = Script(inner=script)
    stack = int(r.integers(1, 4)) if typ == "memory" else 1
    h = int(r.choice([1, 1, 2, 3])) if typ != "memory" else 1
    gamma = float(r.random())
    trs = play(r, script, kind, int(r.integers(2, 7)))
    rb = ReplayBuffer(replay_capacity=len(trs) * (stack + 1) + 10, batch_size=1, stack_size=stack, update_horizon=h, gamma=gamma,
                      return_everything_as_stack=typ == "memory" and stack > 1)
    cls = dict(dqn=rlt.DiscreteDqnInput, parametric=rlt.ParametricDqnInput, policy=rlt.PolicyNetworkInput, memory=rlt.MemoryNetworkInput)[typ]
    with ctx.case(typ, dict(kind=kind, n=len(trs), stack=stack, h=h, masks=script.masks), distinct=k):
        ins = BasicReplayBufferInserter()
        for t in trs:
            before = {kk: np.copy(v) for kk, v in t.asdict().items()}
            ins(rb, t)
            ctx.expect(all(eq(before[kk], v) for kk, v in t.asdict().items()), "insertion-leaves-the-transition", "")
        prep = make_replay_buffer_trainer_preprocessor(learner(cls, lightning=r.random() < 0.5), torch.device("cpu"), env)
        raw = rb.sample_all_valid_transitions()
        n = raw.state.shape[0]
        ctx.require(n == len(trs), "every-transition-is-usable", f"{n} of {len(trs)}")
        order = r.permutation(n)
        raw = rb.sample_transition_batch(batch_size=n, indices=raw.indices.reshape(-1)[torch.tensor(order)])
        out = prep(raw)
        ctx.require(isinstance(out, cls), "input-type", f"{type(out)}")
        A = script.action_space.n if kind == "discrete" else None
        end = [i for i, t in enumerate(trs) if t.terminal]

        def rng(a):  # into the training range
            lo, hi = script.action_space.low.astype(float), script.action_space.high.astype(float)
            return (a - lo) / (hi - lo) * 2 - 1

        for row, i in enumerate(order):
            i = int(i)
            t = trs[i]
            last = min(e for e in end if e >= i)
            k_ = min(h, last - i + 1)
            term = i + k_ - 1 == last
            ctx.saw("rows")
            ctx.saw(typ)
            ctx.saw("terminal_rows", term)
            ctx.saw("n_step_rows", k_ > 1)
            if typ == "memory":
                memory_row(ctx, out, row, trs, i, term, stack, A)
                continue
            ctx.expect(eq(out.state.float_features[row], t.observation), "state", f"row {row}")
            ctx.expect(float(out.not_terminal[row]) == (0.0 if term else 1.0), "not-terminal", f"row {row}: {out.not_terminal[row]} for {term}")
            ctx.expect(out.not_terminal.shape == (n, 1) and out.reward.shape == (n, 1), "scalar-shape", f"{out.not_terminal.shape} {out.reward.shape}")
            want = sum(gamma ** j * trs[i + j].reward for j in range(k_))
            ctx.close(out.reward[row], [want], "reward", rtol=1e-5, atol=1e-5)
            ctx.close(out.extras.action_probability[row], [np.exp(t.log_prob)], "action-probability", rtol=1e-5, atol=1e-6)
            if not term:
                ctx.expect(eq(out.next_state.float_features[row], trs[i + k_].observation), "next-state", f"row {row}")
            nx = None if term else trs[i + k_].action
            if kind == "discrete":
                one = lambda a: np.eye(A)[int(a)]  # noqa: E731
                want_a, want_n = one(t.action), np.zeros(A) if term else one(nx)
            else:
                want_a, want_n = rng(t.action), np.zeros(len(t.action)) if term else rng(nx)
            ga, gn = (out.action, out.next_action) if typ == "dqn" else (out.action.float_features, out.next_action.float_features)
            ctx.close(ga[row], want_a, "action", rtol=1e-4, atol=1e-4)
            ctx.close(gn[row], want_n, "next-action", rtol=1e-4, atol=1e-4)
            if kind == "box":
                ctx.expect(bool((ga[row].abs() <= 1).all()), "action-in-training-range", f"{ga[row]}")
            if typ == "dqn":
                m = np.ones(A) if t.possible_actions_mask is None else t.possible_actions_mask
                ctx.saw("masked_rows", t.possible_actions_mask is not None)
                ctx.expect(eq(out.possible_actions_mask[row], m), "mask", f"row {row}")
                if not term:
                    m = trs[i + k_].possible_actions_mask
                    ctx.expect(eq(out.possible_next_actions_mask[row], np.ones(A) if m is None else m), "next-mask", f"row {row}")
            if typ == "parametric":
                for pa in (out.possible_actions, out.possible_next_actions):
                    ctx.expect(eq(pa.float_features[row * A:(row + 1) * A], np.eye(A)) and pa.float_features.shape[0] == n * A, "possible-actions", f"row {row}")
                ctx.expect(eq(out.possible_actions_mask[row], np.ones(A)) and eq(out.possible_next_actions_mask[row], np.ones(A)), "mask", f"row {row}")
        if typ == "policy":
            # a candidate list is embedded into the state, document after document
            docs, ndocs = torch.randn(n, 3, 2), torch.randn(n, 3, 2)
            T2 = collections.namedtuple("T2", raw._fields + ("doc", "next_doc"))
            o2 = prep(T2(*raw, docs, ndocs))
            ctx.close(o2.state.float_features, torch.cat([raw.state.reshape(n, -1).float(), docs.reshape(n, -1)], 1), "embedded-candidates", rtol=1e-6, atol=1e-6)
            ctx.close(o2.next_state.float_features, torch.cat([raw.next_state.reshape(n, -1).float(), ndocs.reshape(n, -1)], 1), "embedded-candidates", rtol=1e-6, atol=1e-6)
            ctx.expect(torch.equal(o2.action.float_features, out.action.float_features), "action", "with candidates")


def memory_row(ctx, out, row, trs, i, term, stack, A):
    """(stack, row, ...): the frames of the episode up to step i, zeros before its first"""
    first = max(j for j in range(i + 1) if trs[j].sequence_number == 0)
    ctx.expect(out.state.float_features.shape[0] == stack and out.reward.shape[0] == stack and out.action.shape[0] == stack, "stack-first", f"{out.state.float_features.shape}")
    for s in range(stack):
        j = i - (stack - 1) + s
        pad = j < first
        ctx.expect(eq(out.state.float_features[s, row], np.zeros_like(trs[i].observation) if pad else trs[j].observation), "stacked-state", f"row {row} frame {s}")
        ctx.close(out.reward[s, row], 0.0 if pad else trs[j].reward, "stacked-reward", rtol=1e-5, atol=1e-5)
        if not pad:
            a = np.eye(A)[int(trs[j].action)] if A is not None else trs[j].action
            ctx.close(out.action[s, row], a, "stacked-action", rtol=1e-5, atol=1e-5)
        ctx.expect(float(out.not_terminal[s, row]) == (0.0 if term and s == stack - 1 else 1.0), "stacked-not-terminal", f"row {row} frame {s}")
        nj = j + 1
        if not term and nj >= first:
            ctx.expect(eq(out.next_state.float_features[s, row], trs[nj].observation), "stacked-next-state", f"row {row} frame {s}")


def boundaries(ctx, k):
    """what a saturated policy does reaches the environment and comes back as the same training action"""
    r = ctx.nprng(f"bd{k}")
    d = int(r.integers(1, 5))
    v = np.float32(np.sort(r.normal(size=(2, d)) * np.exp(r.normal(size=(2, d)) * 2), axis=0))
    v[1] = np.maximum(v[1], v[0] + np.float32(0.01))
    script, _ = make_env(r, space="box", n=3, maxlen=4)
    script.action_space = gym.spaces.Box(v[0], v[1])
    env = Script(inner=script)
    with ctx.case("boundary", dict(low=v[0].tolist(), high=v[1].tolist()), distinct=k):
        trs, policy_actions = [], []
        for i in range(6):
            a = torch.tensor(np.float32(r.choice([-1.0, 1.0, 0.0, r.uniform(-1, 1)], size=(1, d))))
            got = env.get_action_extractor()(rlt.ActorOutput(action=a))
            ctx.saw("boundary_actions")
            ctx.expect(bool(np.all(got >= v[0]) and np.all(got <= v[1])), "environment-action-in-its-space", f"{got - v[0]} {v[1] - got}")
            policy_actions.append(a[0])
            trs.append(Transition(mdp_id=0, sequence_number=i, observation=np.zeros(2, np.float32), action=got, reward=0.0, terminal=i == 5, log_prob=0.0))
        rb = ReplayBuffer(replay_capacity=20, batch_size=1)
        for t in trs:
            BasicReplayBufferInserter()(rb, t)
        out = PolicyNetworkInputMaker.create_for_env(env)(rb.sample_all_valid_transitions())
        ratio = np.float64(np.maximum(np.abs(v[0]), np.abs(v[1])) / (v[1] - v[0])).max()
        ctx.close(out.action.float_features, torch.stack(policy_actions), "training-action-round-trip", rtol=0, atol=1e-5 * (1 + 5 * ratio))
        ctx.expect(bool((out.action.float_features.abs() <= 1).all()), "action-in-training-range", "")


def trajectories(ctx, k):
    r = ctx.nprng(f"tj{k}")
    ctx.seed_all(f"tj{k}")
    script, kind = make_env(r, n=1, maxlen=6)
    if script.masks:
        script.masks = False
        script.tapes = [[(o, rew, None) for o, rew, _ in tape] for tape in script.tapes]
        del script.possible_actions_mask
    if kind == "multi":
        return
    if k % 4 == 0:
        script.tapes = [script.tapes[0][:2]]
    env = Script(inner=script)
    got = learner(rlt.PolicyGradientInput)
    with ctx.case("trajectory", dict(kind=kind, n=len(script.tapes[0]) - 1), distinct=k):
        ag = Agent.create_for_env(env, policy=Chooser(r, script.action_space, kind), post_episode_callback=train_post_episode(env, got, False))
        tj = run_episode(env, ag)
        n = len(tj)
        ctx.saw("trajectories")
        ctx.saw("one_step_trajectories", n == 1)
        b = got.got
        ctx.expect(eq(b.state.float_features, np.stack(tj.observation)), "trajectory-state", "")
        ctx.expect(b.reward.shape == (n,) and eq(b.reward, tj.reward, 1e-5) and b.log_prob.shape == (n,) and eq(b.log_prob, tj.log_prob, 1e-5), "trajectory-reward", f"{b.reward} {b.log_prob}")
        want = np.eye(script.action_space.n)[np.array([int(a) for a in tj.action])] if kind == "discrete" else np.stack(tj.action)
        ctx.expect(eq(b.action, want, 1e-5), "trajectory-action", f"{tuple(b.action.shape)} vs {want.shape}")


def rows_of(offsets, values, n):
    o = list(np.asarray(offsets)) + [len(values)]
    return [list(np.asarray(values)[o[i]:o[i + 1]]) for i in range(n)]


def arms(ctx, k):
    r = ctx.nprng(f"arms{k}")
    env = ChangingArms()
    A = env.num_arms
    n = int(r.integers(1, 7))
    p = float(r.choice([0.0, 0.15, 0.5, 1.0]))
    legal = (r.random((n, A)) < p).astype(np.float32)
    obs = np.stack([r.integers(0, 10, size=(n, A)) * 10.0, legal, r.normal(size=(n, A))], axis=1).astype(np.float32)
    with ctx.case("ragged", dict(n=n, legal=legal.tolist()), distinct=k):
        ctx.saw("all_empty", not legal.any())
        out = env.trainer_preprocessor(torch.tensor(obs))
        ctx.expect(eq(out.float_features, obs[:, 0]), "dense-values", "")
        off, val = out.id_list_features["legal"]
        ctx.require(tuple(off.shape) == (n,), "offsets-per-row", f"{off}")
        ctx.expect(off.dtype == torch.int64 and val.dtype == torch.int64, "id-types", f"{off.dtype} {val.dtype}")
        got = rows_of(off, val, n)
        soff, skey, sval = out.id_score_list_features["mu_changes"]
        for i in range(n):
            want = np.flatnonzero(legal[i]).tolist()
            ctx.saw("ragged_rows")
            ctx.saw("empty_rows", not want)
            ctx.expect(got[i] == want, "ragged-row", f"row {i} of {n}: {got[i]} for {want}, offsets {off.tolist()} values {val.tolist()}")
            ctx.expect(rows_of(soff, skey, n)[i] == list(range(A)) and eq(rows_of(soff, sval, n)[i], obs[i, 2]), "ragged-row-scores", f"row {i}")
            one = env.obs_preprocessor(obs[i])
            ctx.expect(eq(one.float_features, obs[i:i + 1, 0]) and one.id_list_features["legal"][1].tolist() == want and one.id_list_features["legal"][0].tolist() == [0], "single-observation", f"{want}")
            ctx.expect(eq(one.id_score_list_features["mu_changes"][2], obs[i, 2]) and one.id_score_list_features["mu_changes"][1].tolist() == list(range(A)), "single-observation", "scores")
            sv = env.serving_obs_preprocessor(obs[i])
            ctx.expect(eq(sv.float_features_with_presence[0], obs[i:i + 1, 0]) and bool((sv.float_features_with_presence[1] == 1).all()), "serving-observation", "dense")
            ctx.expect(sv.id_list_features[ID_LIST_FEATURE_ID][1].tolist() == [w + ID_LIST_OFFSET for w in want], "serving-observation", "ids")
            ctx.expect(sv.id_score_list_features[ID_SCORE_LIST_FEATURE_ID][1].tolist() == [j + ID_SCORE_LIST_OFFSET for j in range(A)] and eq(sv.id_score_list_features[ID_SCORE_LIST_FEATURE_ID][2], obs[i, 2]), "serving-observation", "scores")
            d, ids, sc = env.split_state_transform(torch.tensor(obs[i]))
            ctx.expect(eq([d[j] for j in range(A)], obs[i, 0]) and ids == {ID_LIST_FEATURE_ID: [w + ID_LIST_OFFSET for w in want]}
                       and eq([sc[ID_SCORE_LIST_FEATURE_ID][j + ID_SCORE_LIST_OFFSET] for j in range(A)], obs[i, 2]), "generated-rows", "")
        # through the buffer, for a discrete learner
        rb = ReplayBuffer(replay_capacity=n + 5, batch_size=1)
        acts = r.integers(0, A + 1, size=n)
        for i in range(n):
            BasicReplayBufferInserter()(rb, Transition(mdp_id=0, sequence_number=i, observation=obs[i], action=np.array(acts[i]), reward=float(i), terminal=i == n - 1, log_prob=-0.5))
        out = make_replay_buffer_trainer_preprocessor(learner(rlt.DiscreteDqnInput), torch.device("cpu"), env)(rb.sample_all_valid_transitions())
        got = rows_of(*out.state.id_list_features["legal"], n)
        nxt = rows_of(*out.next_state.id_list_features["legal"], n)
        for i in range(n):
            ctx.expect(got[i] == np.flatnonzero(legal[i]).tolist() and eq(out.state.float_features[i], obs[i, 0]), "ragged-row", f"batch row {i}")
            ctx.expect(eq(out.action[i], np.eye(A + 1)[acts[i]]), "action", f"{out.action[i]}")
            if i < n - 1:
                ctx.expect(nxt[i] == np.flatnonzero(legal[i + 1]).tolist() and eq(out.next_state.float_features[i], obs[i + 1, 0]), "ragged-row", f"next row {i}")


def copy_obs(o):
    if isinstance(o, dict):
        return {k: copy_obs(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [copy_obs(v) for v in o]
    return np.copy(o) if isinstance(o, np.ndarray) else o


def doc_matrix(obs, space):
    """documents as the observation preprocessor lays them out: one-hot keys, then numeric keys, each sorted by name"""
    first = next(iter(space["doc"].spaces.values()))
    docs = list(obs["doc"].values())
    if isinstance(first, gym.spaces.Box):
        return np.stack(docs)
    dk = sorted(k for k, v in first.spaces.items() if isinstance(v, gym.spaces.Discrete) and v.n > 0)
    bk = sorted(k for k, v in first.spaces.items() if isinstance(v, gym.spaces.Box))
    return np.array([np.concatenate([np.eye(first[k].n)[d[k]] for k in dk] + [np.reshape(d[k], -1) for k in bk]) for d in docs])


def recsim(ctx, k):
    r = ctx.nprng(f"rs{k}")
    ctx.seed_all(f"rs{k}")
    mode = k % 3
    nd, ss = int(r.integers(2, 7)), int(r.integers(1, 3))
    env = RecSim(num_candidates=nd, slate_size=ss, single_selection=mode != 1, is_interest_exploration=mode == 2, initial_seed=int(r.integers(1000)), resample_documents=bool(r.random() < 0.7))
    rb = ReplayBuffer(replay_capacity=300, batch_size=1)
    raw, nexts = [], []

    class Tap:
        """the environment as the runner sees it, recording every observation"""

        def __getattr__(self, n):
            return getattr(env, n)

        def reset(self):
            o = env.reset()
            nexts.append(("reset", copy_obs(o)))
            return o

        def step(self, a):
            res = env.step(a)
            nexts.append(("step", copy_obs(res[0]), np.copy(a), res[1], res[2]))
            return res

    post = add_replay_buffer_post_step(rb, env)

    def cb(t):
        raw.append(t)
        post(t)

    with ctx.case("recsim", dict(mode=mode, docs=nd, slate=ss), distinct=k):
        ag = Agent.create_for_env(env, policy=None, post_transition_callback=cb)
        while len(raw) < 25:
            run_episode(Tap(), ag, mdp_id=len(raw), max_steps=int(r.integers(3, 40)))
        # observation t, what followed it
        obs, after, acts, rews = [], [], [], []
        cur = None
        for e in nexts:
            if e[0] == "reset":
                cur = e[1]
            else:
                obs.append(cur)
                after.append(e[1])
                acts.append(e[2])
                rews.append(float(e[3]))
                cur = e[1]
        n = len(raw)
        ctx.require(len(obs) == n and rb.size == n, "every-transition-is-usable", f"{len(obs)} {n} {rb.size}")
        b = rb.sample_all_valid_transitions()
        space = env.observation_space
        first = next(iter(space["doc"].spaces.values()))
        pre = env.get_obs_preprocessor()
        for i in range(n):
            ctx.saw("recsim_rows")
            ctx.expect(eq(b.state[i], obs[i]["user"], 1e-5), "recsim-user", f"row {i}")
            ctx.expect(eq(b.action[i], acts[i]), "recsim-action", f"row {i}")
            ctx.close(b.reward[i], [rews[i]], "recsim-reward", rtol=1e-5, atol=1e-5)
            docs = list(obs[i]["doc"].values())
            if isinstance(first, gym.spaces.Box):
                ctx.expect(eq(b.doc[i], np.stack(docs), 1e-5), "recsim-documents", f"row {i}")
            else:
                for key in first.spaces:
                    ctx.expect(eq(getattr(b, f"doc_{key}")[i], np.array([d[key] for d in docs]), 1e-5), "recsim-documents", f"row {i} {key}")
            ctx.expect(eq(b.augmentation_value[i], [v["value"] for v in obs[i]["augmentation"].values()], 1e-5), "recsim-values", f"row {i}")
            resp = obs[i]["response"]
            for key in space["response"][0].spaces:
                want = np.array([v[key] for v in resp]) if resp is not None else np.zeros_like(np.array([v[key] for v in after[i]["response"]]))
                ctx.expect(eq(getattr(b, f"response_{key}")[i], want, 1e-5), "recsim-response-of-the-observation", f"row {i} {key}")
            if i < n - 1 and not raw[i].terminal:
                ctx.expect(eq(b.next_state[i], after[i]["user"], 1e-5), "recsim-next-user", f"row {i}")
            if i % 3 == 0:
                ctx.saw("recsim_obs")
                one = pre(copy_obs(obs[i]))
                ctx.expect(eq(one.float_features, obs[i]["user"][None], 1e-5) and eq(one.candidate_docs.float_features[0], doc_matrix(obs[i], space), 1e-5), "recsim-observation", f"row {i}")
                ctx.expect(eq(one.candidate_docs.value[0], [v["value"] for v in obs[i]["augmentation"].values()], 1e-5) and bool(one.candidate_docs.mask.all()), "recsim-observation", f"row {i} value")
        if mode == 2:
            return
        out = make_replay_buffer_trainer_preprocessor(learner(rlt.SlateQInput), torch.device("cpu"), env)(b)
        for i in range(n):
            ctx.saw("slate_rows")
            term = raw[i].terminal
            d = out.state.candidate_docs
            ctx.expect(eq(out.state.float_features[i], obs[i]["user"], 1e-5) and eq(d.float_features[i], doc_matrix(obs[i], space), 1e-5), "slate-state", f"row {i}")
            ctx.expect(eq(d.value[i], [v["value"] for v in obs[i]["augmentation"].values()], 1e-5) and bool((d.mask == 1).all()), "slate-item-values", f"row {i}")
            ctx.expect(eq(out.action[i], list(acts[i]) + [ss]), "slate-action-with-null", f"row {i}: {out.action[i]} for {acts[i]}")
            ctx.expect(float(out.not_terminal[i]) == (0.0 if term else 1.0), "not-terminal", f"row {i}")
            if not term:
                nd_ = out.next_state.candidate_docs
                ctx.expect(eq(out.next_state.float_features[i], after[i]["user"], 1e-5) and eq(nd_.float_features[i], doc_matrix(after[i], space), 1e-5), "slate-next-state", f"row {i}")
                ctx.expect(eq(nd_.value[i], [v["value"] for v in after[i]["augmentation"].values()], 1e-5), "slate-next-item-values", f"row {i}")
                ctx.expect(eq(out.next_action[i], list(acts[i + 1]) + [ss]), "slate-next-action-with-null", f"row {i}")
            # the null position is observed exactly when nothing in the slate was clicked, and pays nothing
            ctx.expect(float(out.reward[i, -1]) == 0.0, "null-reward", f"row {i}")
            m = out.reward_mask[i].to(torch.bool)
            ctx.expect(bool(m[-1]) == (not bool(m[:-1].any())), "null-mask", f"row {i}: {m}")
            ctx.expect(out.reward.shape[1] == ss + 1 and m.shape[0] == ss + 1, "slate-reward-shape", f"{out.reward.shape}")
            # rewards belong to the slate shown in that step
            resp = after[i]["response"]
            want_m = np.array([v["click"] for v in resp]) > 0
            want_r = np.array([float(np.reshape(v["watch_time"], ())) for v in resp])
            if not (eq(m[:-1], want_m) and eq(out.reward[i, :-1], want_r, 1e-4)):
                # the response stored beside this observation is the one to the slate shown before it (none at the start of an episode)
                prev = obs[i]["response"]
                prev_m = np.array([v["click"] for v in prev]) > 0 if prev is not None else np.zeros(ss, dtype=bool)
                prev_r = np.array([float(np.reshape(v["watch_time"], ())) for v in prev]) if prev is not None else np.zeros(ss)
                same = eq(m[:-1], prev_m) and eq(out.reward[i, :-1], prev_r, 1e-4)
                ctx.expect(False, "slate-reward-of-the-previous-step" if same else "slate-reward", f"row {i}: clicked {m[:-1].tolist()} watched {out.reward[i, :-1].tolist()}, the slate of this step got {want_m.tolist()} {want_r.tolist()}")
            else:
                ctx.saw("slate_reward_agrees")


def synthetic(ctx, k):
    """observation spaces of any composition"""
    r = ctx.nprng(f"syn{k}")
    S = gym.spaces
    box = lambda *s: S.Box(-5.0, 5.0, shape=s)  # noqa: E731
    nd, ss = int(r.integers(1, 5)), int(r.integers(1, 4))
    plain = r.random() < 0.3
    if plain:
        doc = box(int(r.integers(1, 4)))
    else:
        doc = {}
        for j in range(int(r.integers(1, 5))):
            name = f"{'zyxw'[j]}{j}"
            doc[name] = S.Discrete(int(r.integers(1, 5))) if r.random() < 0.5 else box(*([] if r.random() < 0.4 else [int(r.integers(1, 4))]))
        doc = S.Dict(doc)
    resp = S.Dict({f"r{j}": S.Discrete(4) if r.random() < 0.5 else box(*([] if r.random() < 0.5 else [2])) for j in range(int(r.integers(1, 4)))})
    aug = S.Dict({"value": box()} | ({"kind": S.Discrete(3)} if r.random() < 0.5 else {}))
    space = S.Dict({"user": box(int(r.integers(1, 4))), "doc": S.Dict({str(i): doc for i in range(nd)}), "response": S.Tuple([resp] * ss), "augmentation": S.Dict({str(i): aug for i in range(nd)})})
    env = SimpleNamespace(observation_space=space)

    def draw(s):
        if isinstance(s, S.Discrete):
            return int(r.integers(s.n))
        if isinstance(s, S.Box):
            return r.normal(size=s.shape).astype(np.float32) if s.shape else np.float32(r.normal())
        return {kk: draw(v) for kk, v in s.spaces.items()}

    def obs(first):
        return dict(user=draw(space["user"]), doc={str(i): draw(doc) for i in range(nd)}, response=None if first else [draw(resp) for _ in range(ss)], augmentation={str(i): draw(aug) for i in range(nd)})

    with ctx.case("synthetic", dict(nd=nd, ss=ss, plain=plain), distinct=k):
        ins = RecSimReplayBufferInserter.create_for_env(env)
        rb = ReplayBuffer(replay_capacity=40, batch_size=1)
        obss, trs = [], []
        for e in range(int(r.integers(1, 4))):
            L = int(r.integers(1, 6))
            for t in range(L):
                o = obs(t == 0)
                obss.append(copy_obs(o))
                tr = Transition(mdp_id=e, sequence_number=t, observation=o, action=r.integers(0, nd, size=ss), reward=float(np.float32(r.normal())), terminal=t == L - 1, log_prob=-0.1)
                trs.append(tr)
                ins(rb, tr)
        b = rb.sample_all_valid_transitions()
        ctx.require(b.state.shape[0] == len(trs), "every-transition-is-usable", f"{b.state.shape[0]} of {len(trs)}")
        pre = RecsimObsPreprocessor.create_from_env(env)
        for i, o in enumerate(obss):
            ctx.saw("synthetic_rows")

            def row(name, want, next_ok=True):
                got = getattr(b, name)[i]
                ctx.expect(eq(np.reshape(got, -1), np.reshape(want(o), -1), 1e-5), "stored-" + name.split("_")[0], f"row {i} {name}")
                if not trs[i].terminal:
                    ctx.expect(eq(np.reshape(getattr(b, "next_" + name)[i], -1), np.reshape(want(obss[i + 1]), -1), 1e-5), "stored-next-" + name.split("_")[0], f"row {i} {name}")

            row("state", lambda o: o["user"])
            row("action", lambda o_: trs[i].action if o_ is o else trs[i + 1].action)
            if plain:
                row("doc", lambda o: np.stack(list(o["doc"].values())))
            else:
                for kk in doc.spaces:
                    row(f"doc_{kk}", lambda o: np.array([d[kk] for d in o["doc"].values()]))
            for kk in aug.spaces:
                row(f"augmentation_{kk}", lambda o: np.array([d[kk] for d in o["augmentation"].values()]))
            for kk, sp in resp.spaces.items():
                row(f"response_{kk}", lambda o: np.array([d[kk] for d in o["response"]]) if o["response"] is not None else np.zeros((ss,) + tuple(sp.shape or ())))
            f = pre(copy_obs(o))
            ctx.expect(eq(f.float_features[0], o["user"], 1e-5) and eq(f.candidate_docs.float_features[0], doc_matrix(o, space), 1e-5) and eq(f.candidate_docs.value[0], [v["value"] for v in o["augmentation"].values()], 1e-5), "recsim-observation", f"row {i}")


def types_(ctx, k):
    """constructors from dictionaries put every entry where it is named"""
    r = ctx.nprng(f"ty{k}")
    ctx.seed_all(f"ty{k}")
    n, s, a, c, d = (int(v) for v in r.integers(1, 5, size=5))
    t = lambda *sh: torch.randn(*sh)  # noqa: E731
    with ctx.case("from_dict", dict(n=n, s=s, a=a, c=c, d=d), distinct=("t", k)):
        common = dict(state_features=t(n, s), next_state_features=t(n, s), reward=t(n, 1), time_diff=t(n, 1), not_terminal=t(n, 1), step=t(n, 1), action=t(n, a), next_action=t(n, a))
        ids = dict(state_id_list_features={"x": (t(n), t(3))}, next_state_id_list_features={"x": (t(n), t(2))},
                   state_id_score_list_features={"y": (t(n), t(3), t(3))}, next_state_id_score_list_features={"y": (t(n), t(2), t(2))})
        masks = dict(possible_actions_mask=t(n, a), possible_next_actions_mask=t(n, a))
        ex = rlt.ExtraData(mdp_id=t(n, 1))
        chk = lambda ok, what: ctx.expect(ok, "from-dict", what)  # noqa: E731

        def base(o, who, with_ids):
            chk(o.state.float_features is common["state_features"] and o.next_state.float_features is common["next_state_features"], who + " states")
            for f in ("reward", "time_diff", "not_terminal", "step"):
                chk(getattr(o, f) is common[f], f"{who} {f}")
            if with_ids:
                chk(o.state.id_list_features == ids["state_id_list_features"] and o.next_state.id_list_features == ids["next_state_id_list_features"]
                    and o.state.id_score_list_features == ids["state_id_score_list_features"] and o.next_state.id_score_list_features == ids["next_state_id_score_list_features"], who + " id lists")
            chk(len(o) == n and o.batch_size() == n, who + " length")
            ctx.saw("from_dict")

        o = rlt.DiscreteDqnInput.from_dict({**common, **ids, **masks, "extras": ex})
        base(o, "discrete", True)
        chk(o.action is common["action"] and o.next_action is common["next_action"] and o.extras is ex, "discrete actions")
        chk(o.possible_actions_mask is masks["possible_actions_mask"] and o.possible_next_actions_mask is masks["possible_next_actions_mask"], "discrete masks")
        o = rlt.PolicyNetworkInput.from_dict({**common, **ids, "extras": ex})
        base(o, "policy", True)
        chk(o.action.float_features is common["action"] and o.next_action.float_features is common["next_action"] and o.extras is ex, "policy actions")
        pa, pn = t(n * a, d), t(n * a, d)
        o = rlt.ParametricDqnInput.from_dict({**common, **masks, "possible_actions": pa, "possible_next_actions": pn, "extras": ex})
        base(o, "parametric", False)
        chk(o.action.float_features is common["action"] and o.next_action.float_features is common["next_action"] and o.possible_actions.float_features is pa and o.possible_next_actions.float_features is pn, "parametric actions")
        chk(o.possible_actions_mask is masks["possible_actions_mask"] and o.possible_next_actions_mask is masks["possible_next_actions_mask"], "parametric masks")
        sl = dict(common, candidate_features=t(n, c, d), next_candidate_features=t(n, c, d), item_mask=t(n, c), next_item_mask=t(n, c), item_probability=t(n, c), next_item_probability=t(n, c), position_reward=t(n, 2), reward_mask=t(n, 2), mdp_id=t(n, 1))
        o = rlt.SlateQInput.from_dict(sl)
        chk(o.state.candidate_docs.float_features is sl["candidate_features"] and o.next_state.candidate_docs.float_features is sl["next_candidate_features"], "slate docs")
        chk(o.state.candidate_docs.mask is sl["item_mask"] and o.next_state.candidate_docs.mask is sl["next_item_mask"] and o.state.candidate_docs.value is sl["item_probability"] and o.next_state.candidate_docs.value is sl["next_item_probability"], "slate masks")
        chk(o.reward is sl["position_reward"] and o.reward_mask is sl["reward_mask"] and o.extras.mdp_id is sl["mdp_id"] and o.action is sl["action"] and o.next_action is sl["next_action"], "slate rewards")
        o = rlt.PolicyNetworkInput.from_dict({**common, "candidate_features": sl["candidate_features"], "next_candidate_features": sl["next_candidate_features"]})
        chk(o.state.candidate_docs.float_features is sl["candidate_features"] and o.next_state.candidate_docs.float_features is sl["next_candidate_features"], "policy docs")
    with ctx.case("docs", dict(n=n, c=c, d=d), distinct=("d", k)):
        docs = rlt.DocList(t(n, c, d))
        ctx.saw("docs")
        ctx.expect(docs.mask.shape == (n, c) and docs.mask.dtype == torch.bool and bool(docs.mask.all()) and eq(docs.value, np.ones((n, c))), "default-documents-are-present", "")
        docs = rlt.DocList(t(n, c, d), torch.rand(n, c) < 0.7, t(n, c))
        docs.mask[:, 0] = True
        K = int(r.integers(1, 4))
        act = torch.tensor([[int(r.choice(np.flatnonzero(docs.mask[i].numpy()))) for _ in range(K)] for i in range(n)])
        sel = docs.select_slate(act)
        for i in range(n):
            for j in range(K):
                ctx.expect(torch.equal(sel.float_features[i, j], docs.float_features[i, act[i, j]]) and float(sel.value[i, j]) == float(docs.value[i, act[i, j]]) and bool(sel.mask[i, j]), "selected-slate", f"{i},{j}")
        if not docs.mask.all():
            i, j = (int(v) for v in (~docs.mask).nonzero()[0])
            bad = act.clone()
            bad[i, 0] = j
            try:
                docs.select_slate(bad)
                ok = False
            except AssertionError:
                ok = True
            ctx.expect(ok, "absent-document-refused", "")
        ctx.expect(torch.equal(docs.as_feature_data().float_features, docs.float_features.reshape(-1, d)), "documents-as-rows", "")
        f = rlt.FeatureData(float_features=t(n, s), candidate_docs=docs)
        cu = f.concat_user_doc()
        for i in range(n):
            for j in range(c):
                ctx.expect(torch.equal(cu[i, j], torch.cat([f.float_features[i], docs.float_features[i, j]])), "user-with-each-document", f"{i},{j}")
        plain = rlt.FeatureData(float_features=t(n, s))
        m = int(r.integers(1, 4))
        tiled = plain.get_tiled_batch(m).float_features
        ctx.expect(tiled.shape == (n * m, s) and all(torch.equal(tiled[i * m + j], plain.float_features[i]) for i in range(n) for j in range(m)), "tiled-rows", "")
        g = get_possible_actions_for_gym(n, a).float_features
        ctx.expect(torch.equal(g, torch.eye(a).repeat(n, 1)), "possible-actions", "")
        # tensor methods reach every tensor, nested ones included, and nothing else
        both = rlt.FeatureData(float_features=t(n, s), id_list_features={"x": (torch.arange(n), torch.arange(3))}, candidate_docs=docs)
        moved = both.double()
        ctx.expect(moved.float_features.dtype == torch.float64 and moved.candidate_docs.value.dtype == torch.float64 and moved.id_list_features["x"][0].dtype == torch.float64
                   and torch.equal(moved.float_features.float(), both.float_features) and torch.equal(moved.candidate_docs.float_features.float(), docs.float_features) and both.float_features.dtype == torch.float32, "tensor-methods-reach-every-field", "")
        ex = rlt.ExtraData.from_dict({"mdp_id": 1, "unrelated": 2})
        ctx.expect(ex.mdp_id == 1 and all(getattr(ex, f_.name) is None for f_ in dataclasses.fields(ex) if f_.name != "mdp_id"), "extra-data-from-dict", "")
        for bad in (lambda: rlt.FeatureData(torch.zeros(3)), lambda: rlt.DocList(torch.zeros(3, 2))):
            try:
                bad()
                ok = False
            except (ValueError, AssertionError):
                ok = True
            ctx.expect(ok, "wrong-rank-refused", "")


def dispatch(ctx, k):
    r = ctx.nprng(f"dis{k}")
    script, _ = make_env(r, space="discrete")
    env = Script(inner=script)

    class NoType:
        def train(self, training_batch):
            pass

    class NoBatch:
        def train(self, x: rlt.DiscreteDqnInput):
            pass

    with ctx.case("dispatch", k, distinct=("x", k)):
        for bad, exc in ((learner(rlt.PolicyGradientInput), KeyError), (learner(int, True), KeyError), (NoType(), AssertionError), (NoBatch(), AssertionError)):
            try:
                make_replay_buffer_trainer_preprocessor(bad, torch.device("cpu"), env)
                ok = False
            except exc:
                ok = True
            ctx.saw("dispatch")
            ctx.expect(ok, "unknown-input-refused", f"{bad}")
        try:
            make_trainer_preprocessor_online(learner(rlt.DiscreteDqnInput), torch.device("cpu"), env)
            ok = False
        except KeyError:
            ok = True
        ctx.expect(ok, "unknown-input-refused", "online")


def run(ctx):
    with poisoned():
        run_all(ctx)


def run_all(ctx):
    with ctx.part("vectors"):
        for k in range(ctx.n(120, 900)):
            vectors(ctx, k)
        for k in range(ctx.n(20, 200)):
            boundaries(ctx, k)
    with ctx.part("trajectories"):
        for k in range(ctx.n(90, 500)):
            trajectories(ctx, k)
    with ctx.part("ragged"):
        for k in range(ctx.n(60, 500)):
            arms(ctx, k)
    with ctx.part("recsim"):
        for k in range(ctx.n(9, 60)):
            recsim(ctx, k)
        for k in range(ctx.n(40, 300)):
            synthetic(ctx, k)
    with ctx.part("types"):
        for k in range(ctx.n(40, 200)):
            types_(ctx, k)
        for k in range(ctx.n(8, 20)):
            dispatch(ctx, k)
