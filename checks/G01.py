"""G01: episode runs record exactly what the environment produced."""
import vf.quiet  # noqa
import contextlib
import functools
import io
import math

import gym
import numpy as np
import torch
import reagent.training  # noqa
import reagent.types as rlt
from reagent.gym.agents.agent import Agent
from reagent.gym.agents.post_step import add_replay_buffer_post_step, train_with_replay_buffer_post_step
from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
from reagent.gym.envs.gym import Gym
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter
from reagent.gym.runners.gymrunner import evaluate_for_n_episodes, run_episode
from reagent.gym.types import Trajectory, Transition
from reagent.gym.utils import fill_replay_buffer
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.tensorboardX import SummaryWriterContext

from vf import pickles

pickles.install()

RULE = (
    "Scripted environments with random observations, rewards of several numeric types, episode lengths, masks and action spaces log every "
    "reset, mask read and step; scripted and the bundled random policies act in them. The recorded trajectory, the data handed to the "
    "agent's hooks and the transitions reaching a replay buffer or a training dataset are compared, step by step, with that log: same "
    "values, same order, once each, hooks before the next action, the environment receiving exactly the chosen action. Step limits must cut "
    "episodes at exactly that length, discounted sums equal the definition, and filling a buffer must take exactly the missing number of steps."
)
REQUIRED = {"episodes": 150, "steps": 1500, "limited": 60, "cut_by_limit": 25, "returns": 200, "fill": 30, "fill_steps": 400, "fill_refill": 8, "dataset_batches": 150,
            "dataset_episodes": 60, "post_step_trainings": 60, "evaluate": 12, "evaluate_parallel": 2, "refusals": 30, "box": 30, "multi": 20, "masked": 40, "no_log_prob": 20, "serving": 20}


class ScriptEnv(gym.Env):
    """Plays tapes of (observation, reward) ending where the tape ends; endless tapes never end by themselves."""

    def __init__(self, tapes, space, masks, cap=None, repeat=False):
        self.tapes, self.action_space, self.masks, self.repeat = tapes, space, masks, repeat
        self.dim = len(tapes[0][0][0])
        self.observation_space = gym.spaces.Box(-100.0, 100.0, shape=(self.dim,))
        self.e, self.t, self.log, self.live = -1, 0, [], False
        if cap is not None:
            self._max_episode_steps = cap
        if masks:
            self.possible_actions_mask = None

    def _mask(self):
        if self.masks:
            self.possible_actions_mask = self.tape[self.t][2].copy()

    @property
    def tape(self):
        return self.tapes[self.e % len(self.tapes)]

    def reset(self):
        if not self.repeat or self.e < 0:
            self.e += 1
        self.t, self.live = 0, True
        self._mask()
        self.log.append(("reset", self.e))
        return self.tape[0][0].copy()

    def step(self, action):
        obs, reward, mask = self.tape[self.t][:3]
        self.log.append(("step", self.e, self.t, np.array(action, copy=True), self.live))
        self.t += 1
        done = self.t == len(self.tape) - 1
        if done:
            self.live = False
        self._mask()
        return self.tape[self.t][0].copy(), reward, (np.bool_(done) if self.t % 2 else done), {}


def same_env(env):
    return env


def Script(inner):
    """the bundled gym wrapper around a registered environment"""
    name = f"VfScript{len(NAMES)}-v0"
    NAMES.append(name)
    gym.envs.registration.register(id=name, entry_point=functools.partial(same_env, inner))
    return Gym(env_name=name)


NAMES = []


def make_env(r, space=None, cap=None, maxlen=12, repeat=False, n=None, unit=False):
    """unit: distinct rewards, so that every transition can be told apart"""
    kind = space or r.choice(["discrete", "discrete", "box", "multi"])
    dim = int(r.integers(1, 4))
    if kind == "discrete":
        k = int(r.integers(1, 6))
        sp = gym.spaces.Discrete(k)
    elif kind == "box":
        k = int(r.integers(1, 4))
        lo = r.normal(size=k).astype(np.float32) * 3
        sp = gym.spaces.Box(lo, lo + r.random(k).astype(np.float32) * 5 + 0.1)
    else:
        sp = gym.spaces.MultiDiscrete([int(v) for v in r.integers(1, 5, size=int(r.integers(1, 4)))])
    masks = kind == "discrete" and r.random() < 0.5
    n = n or int(r.integers(1, 5))
    style = int(r.integers(4))
    tapes = []
    for _ in range(n):
        T = int(r.choice([1, 2, int(r.integers(1, maxlen + 1)), int(r.integers(1, maxlen + 1))]))
        tape = []
        for t in range(T + 1):
            m = None
            if masks:
                m = (r.random(k) < 0.5).astype(np.float32)
                m[int(r.integers(k))] = 1
            rew = float(np.float32(r.normal() * 5))
            rew = [rew, np.float32(rew), np.array(rew), int(rew)][style] if not unit else rew
            tape.append((r.normal(size=dim).astype(np.float32), rew, m))
        tapes.append(tape)
    return ScriptEnv(tapes, sp, masks, cap, repeat), kind


class Chooser:
    """Chooses among all actions of the space (in the training range for boxes), remembering what it saw and chose."""

    def __init__(self, r, space, kind, log_prob=True):
        self.r, self.space, self.kind, self.lp, self.calls = r, space, kind, log_prob, []
        self.serving = False

    def act(self, obs, mask=None):
        r = self.r
        if self.kind == "discrete":
            ok = np.arange(self.space.n) if mask is None else np.flatnonzero(mask)
            a = torch.nn.functional.one_hot(torch.tensor([int(r.choice(ok))]), self.space.n)
            env = int(a.argmax())
        elif self.kind == "box":
            a = torch.tensor(r.uniform(-1, 1, size=(1, len(self.space.low))).astype(np.float32))
            if r.random() < 0.1:
                a = torch.sign(a)
            if self.serving:  # already in the environment's range
                a = torch.tensor(np.float32(r.uniform(self.space.low, self.space.high))[None])
            lo, hi = -1.0, 1.0
            a = a if self.serving else a.clamp(lo, hi)
            env = a[0].numpy() if self.serving else (a[0].double().numpy() - lo) / (hi - lo) * (self.space.high.astype(float) - self.space.low) + self.space.low
        else:
            a = torch.tensor([[int(r.integers(n)) for n in self.space.nvec]])
            env = a[0].numpy()
        lp = torch.tensor([[float(r.normal())]] if r.random() < 0.5 else [float(r.normal())]) if self.lp else None
        if self.serving:
            value, presence = obs
            assert bool((presence == 1).all()) and presence.shape == value.shape
        else:
            value = obs.float_features
        self.calls.append((value.clone().numpy(), None if mask is None else np.array(mask, copy=True), env, None if lp is None else float(lp)))
        return rlt.ActorOutput(action=a, log_prob=lp)


def eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def check_trajectory(ctx, transitions, script, pol, e, mdp_id, limit, kind, base=0):
    """transitions of one run against the tape it was played from and what the policy chose"""
    tape = script.tapes[e % len(script.tapes)]
    T = len(tape) - 1
    want = T if limit is None else min(T, limit)
    ctx.require(len(transitions) == want, "episode-length", f"{len(transitions)} steps recorded, tape {T}, limit {limit}")
    for t, tr in enumerate(transitions):
        ctx.saw("steps")
        obs, rew, mask = tape[t]
        ctx.expect(eq(tr.observation, obs), "recorded-observation", f"step {t}")
        ctx.expect(type(tr.reward) is float and tr.reward == float(rew), "recorded-reward", f"step {t}: {tr.reward!r} for {rew!r}")
        ctx.expect(tr.terminal is (t == want - 1), "recorded-terminal", f"step {t} of {want}: {tr.terminal!r}")
        ctx.expect(tr.mdp_id == mdp_id and tr.sequence_number == t, "recorded-identity", f"{tr.mdp_id}/{tr.sequence_number} for {mdp_id}/{t}")
        ctx.expect((tr.possible_actions_mask is None) == (mask is None) and (mask is None or eq(tr.possible_actions_mask, mask)), "recorded-mask", f"step {t}: {tr.possible_actions_mask} for {mask}")
        if pol is not None:
            o, m, act, lp = pol.calls[base + t]
            ctx.expect(eq(o, obs.reshape(1, -1)), "policy-sees-current-observation", f"step {t}")
            ctx.expect((m is None) == (mask is None) and (m is None or eq(m, mask)), "policy-sees-current-mask", f"step {t}")
            if kind == "box":
                ctx.close(tr.action, act, "recorded-action", rtol=1e-4, atol=1e-4)
            else:
                ctx.expect(eq(tr.action, act), "recorded-action", f"step {t}: {tr.action} for {act}")
            ctx.expect(tr.log_prob == lp, "recorded-log-prob", f"step {t}: {tr.log_prob} for {lp}")


def check_env_log(ctx, script, runs):
    """runs: per episode the recorded transitions, in order"""
    it = iter(script.log)
    for e, trs in runs:
        ctx.expect(next(it, None) == ("reset", e), "reset-per-episode", f"episode {e}")
        for t, tr in enumerate(trs):
            ev = next(it, None)
            ctx.require(ev is not None and ev[:3] == ("step", e, t), "environment-stepped-once-per-transition", f"{ev and ev[:3]} for {(e, t)}")
            ctx.expect(ev[4], "no-step-after-the-end", f"{(e, t)}")
            ctx.expect(eq(ev[3], tr.action), "environment-receives-the-recorded-action", f"{ev[3]} vs {tr.action}")
    ctx.expect(next(it, None) is None, "no-further-environment-calls", "")


def runs(ctx, k):
    r = ctx.nprng(f"run{k}")
    script, kind = make_env(r)
    env = Script(inner=script)
    pol = Chooser(r, script.action_space, kind, log_prob=r.random() < 0.8)
    events, seen = [], []
    hooks = bool(r.random() < 0.8)

    def step_hook(tr):
        events.append(("step", tr, len(script.log), len(pol.calls)))

    def episode_hook(tj):
        events.append(("episode", tj, len(script.log), len(pol.calls)))

    pol.serving = bool(r.random() < 0.3)
    kw = dict(post_transition_callback=step_hook, post_episode_callback=episode_hook) if hooks else {}
    agent = Agent.create_for_env_with_serving_policy(env, pol, **kw) if pol.serving else Agent.create_for_env(env, policy=pol, **kw)
    ctx.saw("serving", pol.serving)
    n = int(r.integers(1, 5))
    done = []
    with ctx.case("run", dict(kind=kind, lens=[len(t) - 1 for t in script.tapes], masks=script.masks, n=n), distinct=k):
        for j in range(n):
            T = len(script.tapes[j % len(script.tapes)]) - 1
            limit = [None, 1, T, max(1, T - 1), T + 1, int(r.integers(1, 15))][int(r.integers(6))]
            mdp = int(r.integers(0, 1000))
            g0, c0, ev0, l0 = SummaryWriterContext._global_step, len(pol.calls), len(events), len(script.log)
            tj = run_episode(env=env, agent=agent, mdp_id=mdp, max_steps=limit)
            ctx.saw("episodes")
            ctx.saw(kind)
            ctx.saw("limited", limit is not None)
            ctx.saw("cut_by_limit", limit is not None and limit < T)
            ctx.saw("masked", script.masks)
            ctx.saw("no_log_prob", not pol.lp)
            check_trajectory(ctx, tj.transitions, script, pol, j, mdp, limit, kind, c0)
            L = len(tj)
            ctx.expect(len(pol.calls) - c0 == L, "one-choice-per-step", f"{len(pol.calls) - c0} for {L}")
            ctx.expect(SummaryWriterContext._global_step - g0 == L, "global-step-counts-steps", f"{SummaryWriterContext._global_step - g0} for {L}")
            if hooks:
                mine = events[ev0:]
                ctx.expect([m[0] for m in mine] == ["step"] * L + ["episode"], "hooks-once-each", f"{[m[0] for m in mine]} for {L} steps")
                for t, m in enumerate(mine[:L]):
                    ctx.expect(m[1] is tj.transitions[t], "hook-gets-the-recorded-transition", f"step {t}")
                    ctx.expect(m[2:] == (l0 + t + 2, c0 + t + 1), "hook-before-the-next-action", f"step {t}")
                if mine:
                    ctx.expect(mine[-1][1] is tj, "episode-hook-gets-the-trajectory", "")
            for name in ("observation", "action", "reward", "terminal", "sequence_number", "log_prob", "possible_actions_mask", "mdp_id"):
                got = getattr(tj, name)
                ctx.expect(len(got) == L and all(a is b or eq(a, b) for a, b in zip(got, [getattr(t, name) for t in tj.transitions])), "trajectory-field-lists", name)
            for gamma in (1.0, 0.0, float(r.random()), 0.99):
                want = math.fsum(float(script.tapes[j % len(script.tapes)][t][1]) * gamma ** t for t in range(L))
                ctx.saw("returns")
                ctx.expect(abs(tj.calculate_cumulative_reward(gamma) - want) <= 1e-9 * (1 + 100 * L), "discounted-return", f"gamma {gamma}: {tj.calculate_cumulative_reward(gamma)} vs {want}")
            done.append((j, list(tj.transitions)))
        check_env_log(ctx, script, done)


def refusals(ctx, k):
    r = ctx.nprng(f"ref{k}")
    with ctx.case("optional-fields", k, distinct=("o", k)):
        tj = Trajectory()
        lp, mk = bool(r.random() < 0.5), bool(r.random() < 0.5)

        def tr(i, lp, mk):
            return Transition(mdp_id=0, sequence_number=i, observation=np.zeros(2), action=0, reward=1.0, terminal=False, log_prob=0.0 if lp else None, possible_actions_mask=np.zeros(2) if mk else None)

        n = int(r.integers(1, 4))
        for i in range(n):
            tj.add_transition(tr(i, lp, mk))
        for a, b in ((not lp, mk), (lp, not mk), (not lp, not mk)):
            try:
                tj.add_transition(tr(n, a, b))
                ok = False
            except ValueError:
                ok = True
            ctx.saw("refusals")
            ctx.expect(ok and len(tj) == n, "mixed-optional-fields-refused", f"{lp, mk} then {a, b}")
        tj.add_transition(tr(n, lp, mk))
        ctx.expect(len(tj) == n + 1 and tj.sequence_number == list(range(n + 1)), "trajectory-field-lists", "after refusals")
        d = tr(0, lp, mk).asdict()
        ctx.expect(("log_prob" in d) == lp and ("possible_actions_mask" in d) == mk, "asdict-drops-only-missing", f"{sorted(d)}")
        try:
            Trajectory().calculate_cumulative_reward(1.0)
            ok = False
        except AssertionError:
            ok = True
        ctx.expect(ok, "empty-return-refused", "")


def buffer(r, need, stack=None):
    h = int(r.choice([1, 1, 2, 3]))
    stack = stack or int(r.choice([1, 1, 2, 3]))
    return ReplayBuffer(replay_capacity=need * (stack + 1) + stack + h + 5, batch_size=2, stack_size=stack, update_horizon=h, gamma=0.9)


def fill(ctx, k):
    r = ctx.nprng(f"fill{k}")
    ctx.seed_all(f"fill{k}")
    cap = [None, int(r.integers(1, 10))][int(r.integers(2))]
    script, kind = make_env(r, cap=cap, unit=True)
    env = Script(inner=script)
    goals = sorted({int(v) for v in r.integers(1, 40, size=int(r.integers(1, 4)))})
    rb = buffer(r, goals[-1])
    with ctx.case("fill", dict(kind=kind, lens=[len(t) - 1 for t in script.tapes], cap=cap, goals=goals, stack=rb._stack_size, horizon=rb._update_horizon), distinct=k):
        for i, g in enumerate(goals):
            with contextlib.redirect_stderr(io.StringIO()):
                fill_replay_buffer(env, rb, g)
            ctx.saw("fill")
            ctx.saw("fill_refill", i > 0)
            steps = [e for e in script.log if e[0] == "step"]
            ctx.saw("fill_steps", len(steps) if i == len(goals) - 1 else 0)
            ctx.expect(rb.size == g, "filled-to-the-size-asked", f"size {rb.size} for {g}")
            ctx.require(len(steps) == g, "steps-taken-for-the-fill", f"{len(steps)} steps for {g} transitions")
            ctx.expect(all(e[4] for e in steps), "no-step-after-the-end", "")
            if cap is not None:
                ctx.expect(max(e[2] for e in steps) < cap, "episode-length", f"environment limit {cap}, steps up to {max(e[2] for e in steps) + 1}")
            # contents
            b = rb.sample_all_valid_transitions()
            ctx.require(b.state.shape[0] == g, "filled-to-the-size-asked", f"{b.state.shape[0]} sampled")
            order = list(b.indices.reshape(-1).tolist())
            ctx.expect(order == sorted(order), "filled-in-order", "")
            for row, e in enumerate(steps):
                obs, rew, mask = script.tapes[e[1] % len(script.tapes)][e[2]]
                now = lambda x: x[row].numpy() if rb._stack_size == 1 else x[row].numpy()[..., -1]  # noqa: E731  the newest frame
                ctx.expect(eq(now(b.state), obs), "buffer-observation", f"row {row}")
                act = e[3]
                if kind == "box":
                    ctx.expect(eq(np.float32(now(b.action)).reshape(-1), np.float32(act)), "buffer-action", f"{b.action[row]} vs {act}")
                    ctx.expect(bool(np.all(act >= script.action_space.low - 1e-4) and np.all(act <= script.action_space.high + 1e-4)), "action-in-space", f"{act}")
                else:
                    ctx.expect(eq(now(b.action).reshape(-1), np.reshape(act, -1)), "buffer-action", f"{b.action[row]} vs {act}")
                    ctx.expect(script.action_space.contains(int(act) if kind == "discrete" else np.asarray(act)), "action-in-space", f"{act}")
                if mask is not None:
                    ctx.saw("masked")
                    ctx.expect(mask[int(act)] > 0, "random-policy-keeps-to-the-mask", f"{act} with {mask}")
                    ctx.expect(eq(now(b.possible_actions_mask).reshape(-1), mask), "buffer-mask", f"row {row}")
                last = row + 1 == len(steps) or steps[row + 1][1:3] != (e[1], e[2] + 1)
                if rb._update_horizon == 1:
                    ctx.expect(bool(b.terminal[row]) == last, "buffer-terminal", f"row {row}")
                    ctx.expect(abs(float(b.reward[row]) - rew) < 1e-5, "buffer-reward", f"row {row}")
                ctx.expect(int(b.sequence_number[row].reshape(-1)[-1]) == e[2], "buffer-sequence-number", f"row {row}")
        for bad in (0, rb._replay_capacity + 1, goals[-1]):
            try:
                fill_replay_buffer(env, rb, bad)
                ok = False
            except AssertionError:
                ok = True
            ctx.expect(ok, "impossible-size-refused", f"{bad}")


def dataset(ctx, k):
    r = ctx.nprng(f"ds{k}")
    ctx.seed_all(f"ds{k}")
    script, kind = make_env(r, unit=True)
    env = Script(inner=script)
    pol = Chooser(r, script.action_space, kind)
    n, bs, freq = int(r.integers(1, 6)), int(r.integers(1, 6)), int(r.integers(1, 5))
    limit = [None, 1, int(r.integers(1, 12))][int(r.integers(3))]
    rb = ReplayBuffer(replay_capacity=400, batch_size=bs)
    inserted, prepared = [], []
    basic = BasicReplayBufferInserter()

    def inserter(buf, tr):
        ctx.expect(buf is rb, "inserts-into-its-buffer", "")
        inserted.append(tr)
        basic(buf, tr)

    tp = r.random() < 0.7

    def prep(b):
        prepared.append(b)
        return ("prepared", b)

    ds = ReplayBufferDataset(env, Agent.create_for_env(env, policy=pol), rb, bs, training_frequency=freq, num_episodes=n, max_steps=limit,
                             trainer_preprocessor=prep if tp else None, replay_buffer_inserter=inserter)
    with ctx.case("dataset", dict(n=n, bs=bs, freq=freq, limit=limit, kind=kind, lens=[len(t) - 1 for t in script.tapes]), distinct=k):
        lens = [len(script.tapes[e % len(script.tapes)]) - 1 for e in range(n)]
        lens = lens if limit is None else [min(limit, l) for l in lens]
        total = sum(lens)
        starts = np.cumsum([0] + lens)

        # the transition being collected is usable once its successor or the end of its episode is known
        def usable(s):  # after s steps
            return s if s in starts[1:] else s - 1

        # one-step transitions: the last one counts only when the buffer can serve it; the buffer itself says so
        expect_at = []
        at = []
        with contextlib.redirect_stdout(io.StringIO()):
            for b in ds:
                ctx.saw("dataset_batches")
                at.append(len(inserted))
                raw = b
                if tp:
                    ctx.require(isinstance(b, tuple) and b[0] == "prepared" and b[1] is prepared[-1] and len(prepared) == len(at), "batch-is-prepared-once", "")
                    raw = b[1]
                ctx.expect(raw.state.shape[0] == bs, "batch-size", f"{raw.state.shape[0]} for {bs}")
                seen = {(t.mdp_id, t.sequence_number): t for t in inserted}
                for row in range(raw.state.shape[0]):
                    key = (int(raw.mdp_id[row]), int(raw.sequence_number[row]))
                    ctx.require(key in seen, "batch-holds-collected-transitions", f"{key}")
                    t = seen[key]
                    ctx.expect(eq(raw.state[row].numpy(), t.observation) and abs(float(raw.reward[row]) - t.reward) < 1e-5 and bool(raw.terminal[row]) == t.terminal, "batch-holds-collected-transitions", f"{key}")
        expect_at = [s for s in range(1, total + 1) if (s - 1) % freq == 0 and usable(s) >= bs]
        ctx.expect(at == expect_at, "trains-at-the-stated-frequency", f"after {at}, expected after {expect_at}")
        ctx.require(len(inserted) == total, "episodes-asked-are-collected", f"{len(inserted)} transitions for {total}")
        by, log = [], []
        for e in range(n):
            trs = inserted[starts[e]:starts[e + 1]]
            check_trajectory(ctx, trs, script, pol, e, e, limit, kind, int(starts[e]))
            log.append((e, trs))
            ctx.saw("dataset_episodes")
        check_env_log(ctx, script, log)


class Learner:
    def __init__(self):
        self.batches = []

    def train(self, b):
        self.batches.append(b)


def post_step(ctx, k):
    r = ctx.nprng(f"post{k}")
    ctx.seed_all(f"post{k}")
    script, kind = make_env(r, unit=True, n=3)
    env = Script(inner=script)
    pol = Chooser(r, script.action_space, kind)
    freq, bs = int(r.integers(1, 5)), int(r.integers(1, 4))
    rb, learner = ReplayBuffer(replay_capacity=300, batch_size=bs), Learner()
    with ctx.case("post_step", dict(freq=freq, bs=bs, kind=kind), distinct=k):
        pre = Agent.create_for_env(env, policy=pol, post_transition_callback=add_replay_buffer_post_step(rb, env))
        first = []
        while rb.size < bs + 1:
            first += run_episode(env, pre, mdp_id=1000 + len(first)).transitions
        ctx.expect(rb.size == len(first), "add-post-step-adds-each-once", f"{rb.size} for {len(first)}")
        steps = []
        cb = train_with_replay_buffer_post_step(rb, env, learner, freq, bs, trainer_preprocessor=lambda b: ("p", b))
        ag = Agent.create_for_env(env, policy=pol, post_transition_callback=cb)
        for e in range(int(r.integers(1, 4))):
            n0 = len(steps)
            steps += run_episode(env, ag, mdp_id=e).transitions
        ctx.saw("post_step_trainings", len(learner.batches))
        ctx.expect(len(learner.batches) == -(-len(steps) // freq), "trains-at-the-stated-frequency", f"{len(learner.batches)} for {len(steps)} steps every {freq}")
        ctx.expect(all(b[0] == "p" and b[1].state.shape[0] == bs for b in learner.batches), "batch-size", "")
        ctx.expect(rb.size == len(first) + len(steps), "add-post-step-adds-each-once", f"{rb.size}")


def evaluate(ctx, k, parallel):
    r = ctx.nprng(f"ev{k}{parallel}")
    n = int(r.integers(1, 6)) if not parallel else int(r.integers(2, 7))
    script, kind = make_env(r, repeat=parallel, n=n)
    env = Script(inner=script)
    agent = Agent.create_for_env(env, policy=Chooser(r, script.action_space, kind))
    gammas = [1.0, 0.9, float(r.random())][: int(r.integers(1, 4))]
    limit = [None, int(r.integers(1, 8))][int(r.integers(2))]
    with ctx.case("evaluate", dict(n=n, gammas=gammas, limit=limit, parallel=parallel), distinct=(k, parallel)):
        got = evaluate_for_n_episodes(n, env, agent, max_steps=limit, gammas=gammas, num_processes=3 if parallel else 1)
        ctx.expect(np.shape(got) == (n, len(gammas)), "evaluation-shape", f"{np.shape(got)}")
        for i in range(n):
            tape = script.tapes[0 if parallel else i]
            T = len(tape) - 1
            T = T if limit is None else min(T, limit)
            for j, g in enumerate(gammas):
                want = math.fsum(float(tape[t][1]) * g ** t for t in range(T))
                ctx.expect(abs(got[i, j] - want) < 1e-4, "evaluation-entry", f"[{i},{j}]: {got[i, j]} vs {want}")
        ctx.saw("evaluate_parallel" if parallel else "evaluate")


def run(ctx):
    with ctx.part("run"):
        for k in range(ctx.n(160, 1500)):
            runs(ctx, k)
        for k in range(ctx.n(20, 60)):
            refusals(ctx, k)
    with ctx.part("fill"):
        for k in range(ctx.n(40, 300)):
            fill(ctx, k)
    with ctx.part("dataset"):
        for k in range(ctx.n(120, 700)):
            dataset(ctx, k)
        for k in range(ctx.n(40, 200)):
            post_step(ctx, k)
    with ctx.part("evaluate"):
        for k in range(ctx.n(24, 100)):
            evaluate(ctx, k, False)
        for k in range(ctx.n(4, 20)):
            evaluate(ctx, k, True)
