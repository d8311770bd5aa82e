"""G03: built-in environments follow their stated dynamics."""
import vf.quiet  # noqa
import collections
import itertools
import math
import random

import gym
import numpy as np
import torch
import reagent.training  # noqa
from reagent.gym.envs import ChangingArms, OraclePVM, RecSim, ToyVM
from reagent.gym.envs.gym import Gym
from reagent.gym.envs.pomdp import pocman as P
from reagent.gym.envs.pomdp.state_embed_env import StateEmbedEnvironment
from reagent.gym.envs.toy_vm import Document, simulate_reward
from reagent.models.world_model import MemoryNetwork
import reagent.types as rlt

from vf.stats import binom_ok, multinomial_ok

RULE = (
    "Every bundled environment is played with random, guided and hostile action sequences while a reference model written from its "
    "documentation follows the trace step by step: observations against the declared space and the reference state, rewards, the action "
    "masks offered against what the environment then accepts, termination and the declared horizon. Chance moves are checked for "
    "membership in the allowed set at each step and for their stated frequencies over all steps. Each environment is also replayed under "
    "one seed fresh and after an abandoned episode: the two traces must be identical."
)
REQUIRED = {"steps": 3000, "string_rewards": 300, "v1_episodes": 200, "v1_rewarded": 20, "lqr_steps": 200, "lqr_clipped": 40, "mask_steps": 400, "arms_steps": 600, "arms_idle": 40,
            "arms_illegal": 15, "arms_exhausted": 8, "arms_full_length": 5, "poc_steps": 1500, "poc_eaten": 10, "poc_caught": 10, "poc_cleared": 5, "poc_random": 300,
            "poc_aggressive": 100, "poc_defensive": 30, "poc_seen": 100, "vm_steps": 150, "vm_chance": 2500, "oracle_steps": 150, "oracle_match": 20, "recsim_steps": 40, "grid_steps": 200,
            "embed_steps": 100, "embed_window": 30, "replays": 40, "refusals": 20}


def scalar(x):
    return float(np.asarray(x).reshape(()))


def seed_everything(s):
    random.seed(s)
    np.random.seed(s % (2 ** 31))
    torch.manual_seed(s)


def in_space(space, obs):
    if isinstance(space, gym.spaces.Dict):
        return all(k in obs and in_space(s, obs[k]) for k, s in space.spaces.items())
    x = np.asarray(obs)
    if isinstance(space, gym.spaces.Box):
        return x.shape == space.shape and bool(np.all(x >= space.low) and np.all(x <= space.high))
    return space.contains(obs)


def contract(ctx, name, env, obs, reward=None, done=None):
    ctx.expect(in_space(env.observation_space, obs), f"{name}:observation-space", "an observation is outside the environment's declared observation space",
               obs=np.asarray(obs).tolist() if not isinstance(obs, dict) else repr(obs)[:600], space=str(env.observation_space)[:200])
    if done is not None:
        ctx.saw("steps")
        ctx.expect(np.ndim(reward) == 0 and math.isfinite(scalar(reward)), f"{name}:reward-number", "a reward is not one finite number", reward=repr(reward))
        ctx.expect(bool(done) in (True, False) and np.ndim(done) == 0, f"{name}:done-flag", "the terminal flag is not a flag", done=repr(done))


def refuses(ctx, mech, f):
    try:
        f()
    except Exception:
        ctx.saw("refusals")
        return
    ctx.expect(False, mech, "an invalid call was accepted")


# ----------------------------------------------------------------- string games
def string_game(ctx, rng):
    limit = rng.choice([None, None, 2, 9, 25])
    env = Gym(env_name="StringGame-v0", set_max_steps=limit)
    horizon = limit or 6
    ctx.expect(env.max_steps == horizon, "string:horizon", "declared limit", got=env.max_steps, want=horizon)
    for _ in range(4):
        obs = env.reset()
        contract(ctx, "string", env, obs)
        ctx.expect(not np.any(obs), "string:reset", "the first observation is not empty", obs=obs.tolist())
        text, done, bias = "", False, rng.choice([.2, .5, .8])
        best = rng.random() < .3
        while not done:
            a = int("ABBABB"[len(text) % 6] == "B") if best else int(rng.random() < bias)
            obs, r, done, info = env.step(a)
            text += "AB"[a]
            want = {"ABB": 5, "BBB": -5}.get(text[-3:], 0)
            contract(ctx, "string", env, obs, r, done)
            ctx.saw("string_rewards")
            ctx.expect(scalar(r) == want, "string:reward", "reward is not that of the last three characters", text=text, got=r, want=want)
            ctx.expect(obs.tolist() == [float(a == 0), float(a == 1)], "string:observation", "the observation is not the character just revealed", text=text, obs=obs.tolist())
            if not ctx.expect(bool(done) == (len(text) == horizon), "string:termination", "the episode does not end exactly at its limit", steps=len(text), done=done, horizon=horizon):
                break
        else:
            refuses(ctx, "string:step-after-end", lambda: env.step(0))
    env.reset()
    refuses(ctx, "string:bad-action", lambda: env.step(2))


def string_game_v1(ctx, rng, tally):
    env = Gym(env_name="StringGame-v1")
    env.seed(rng.randrange(10 ** 6))
    for _ in range(60):
        obs, text, done = env.reset(), "", False
        ctx.expect(not np.any(obs), "string1:reset", "the first observation is not empty", obs=obs.tolist())
        lean = rng.choice([.1, .5, .9])
        while not done:
            a = int(rng.random() < lean)
            obs, r, done, info = env.step(a)
            text += "AB"[a]
            contract(ctx, "string1", env, obs, r, done)
            ctx.expect(obs.tolist() == [float(a == 0), float(a == 1)], "string1:observation", "the observation is not the character just revealed", text=text, obs=obs.tolist())
            want = {"AAA": 5.0, "BA": 4.0}.get(text, 0.0) if done else 0.0
            ctx.expect(scalar(r) == want, "string1:reward", "only the final string is rewarded: 5 for AAA, 4 for BA", text=text, done=done, got=r, want=want)
            ctx.saw("v1_rewarded", int(want > 0))
            if len(text) < 3:
                t = tally["AB"[a]]
                t[0] += 1
                t[1] += bool(done)
            elif not ctx.expect(bool(done), "string1:termination", "an episode lasts more than three steps", text=text):
                break
        ctx.saw("v1_episodes")
        if done:
            refuses(ctx, "string1:step-after-end", lambda: env.step(0))


# ----------------------------------------------------------------- linear dynamics
A = .2 * np.array([[-1., -1, 1], [2, 0, 2], [0, -1, 2]])
B = .2 * np.array([[2., 2], [2, 2], [0, 1]])
Q = .2 * np.array([[1., 0, 0], [0, 2, .5], [0, .5, 1]])
R = .2 * np.array([[1., -1], [-1, 2]])


def lqr(ctx, rng, starts):
    env = Gym(env_name="LinearDynamics-v0")
    nrng = np.random.default_rng(rng.randrange(2 ** 31))
    for _ in range(12):
        x = np.array(env.reset())
        contract(ctx, "lqr", env, x)
        ctx.expect(set(np.unique(x)) <= {-1., 0., 1.}, "lqr:reset", "an initial coordinate is not -1, 0 or 1", x=x.tolist())
        starts.update(x.tolist())
        for t in range(4):
            u = nrng.normal(0, rng.choice([1, 4]), 2)
            if rng.random() < .3:
                u = u.astype(np.float32)
            v = np.clip(u.astype(float), -3, 3)
            ctx.saw("lqr_clipped", int(np.any(v != u)))
            keep = u.copy()
            y, r, done, _ = env.step(u)
            ctx.expect(np.array_equal(keep, u), "lqr:action-modified", "the caller's action was changed", before=keep.tolist(), after=u.tolist())
            contract(ctx, "lqr", env, y, r, done)
            ctx.saw("lqr_steps")
            ctx.close(scalar(r), -(x @ Q @ x + v @ R @ v), "lqr:reward", rtol=1e-5, atol=1e-6)
            ctx.close(torch.tensor(np.array(y)), torch.tensor(A @ x + B @ v), "lqr:dynamics", rtol=1e-5, atol=1e-6)
            ctx.expect(bool(done) == (t == 3), "lqr:termination", "the episode does not end exactly after four steps", t=t, done=done)
            x = np.array(y, dtype=float)


# ----------------------------------------------------------------- action masks
def mask_tester(ctx, rng, tally):
    env = Gym(env_name="PossibleActionsMaskTester-v0")
    for _ in range(4):
        obs = env.reset()
        contract(ctx, "mask", env, obs)
        follow = rng.choice([0., .5, 1.])
        total = good = 0
        for t in range(20):
            ctx.expect(np.argmax(obs) == t and obs.sum() == 1, "mask:observation", "the observation does not mark the step", t=t, obs=obs.tolist())
            m = np.array(env.possible_actions_mask)
            if not ctx.expect(m.shape == (4,) and m.sum() == 1, "mask:one-action", "not exactly one action is possible", mask=m.tolist()):
                return
            tally[int(np.argmax(m))] += 1
            a = int(np.argmax(m)) if rng.random() < follow else rng.randrange(4)
            obs, r, done, _ = env.step(a)
            contract(ctx, "mask", env, obs, r, done)
            ctx.saw("mask_steps")
            ctx.expect(scalar(r) == (10. if m[a] else 0.), "mask:reward", "the reward does not match the mask that was offered", mask=m.tolist(), action=a, reward=r)
            ctx.expect(bool(done) == (t == 19), "mask:termination", "the episode does not end exactly after 20 steps", t=t, done=done)
            total += r
            good += bool(m[a])
        ctx.expect(total == 10 * good and not np.any(obs), "mask:return", "total reward or final state", total=total, good=good)


# ----------------------------------------------------------------- changing arms
PROBS = [.95, 1., .95, .8, .8]


def arms(ctx, rng, tally):
    env = ChangingArms()
    env.seed(rng.randrange(10 ** 6))
    ctx.expect(env.max_steps == 50, "arms:horizon", "declared limit", got=env.max_steps)
    for _ in range(4):
        obs = np.array(env.reset())
        style = rng.choice(["careful", "careful", "greedy", "idle", "wild"])
        value, pulls, t, done = [100.] * 5, [0] * 5, 0, False
        while not done:
            contract(ctx, "arms", env, obs)
            legal = obs[1]
            ok = set(legal.tolist()) <= {0., 1.} and all(legal[i] == 0 for i in range(5) if value[i] <= 0) and legal[1] == (value[1] > 0)
            ctx.expect(obs[0].tolist() == value, "arms:values", "the arm values shown are not 100 less 10 for each pull", shown=obs[0].tolist(), want=value)
            ctx.expect(obs[2].tolist() == [-10.] * 5, "arms:changes", "the changes shown are not those the arms make", shown=obs[2].tolist())
            if not ctx.expect(ok, "arms:mask", "an exhausted arm is offered (or the always available one is not)", shown=legal.tolist(), values=value):
                return
            for i in range(5):
                if value[i] > 0:
                    tally[i][0] += 1
                    tally[i][1] += int(legal[i])
            offered = [i for i in range(5) if legal[i]]
            if style == "wild" and rng.random() < .2:
                a = rng.randrange(6)
            elif style == "idle" and rng.random() < .7 or not offered:
                a = 5
            elif style == "greedy":
                a = offered[0]
            else:
                a = rng.choice(offered)
            obs, r, done, _ = env.step(rng.choice([int, np.array])(a))
            obs = np.array(obs)
            t += 1
            ctx.saw("steps")
            ctx.saw("arms_steps")
            if a == 5:
                want, end = -500., False
                ctx.saw("arms_idle")
            elif not legal[a]:
                want, end = -1000., True
                ctx.saw("arms_illegal")
            else:
                want, end = 10., False
                value[a] -= 10.
                pulls[a] += 1
                ctx.saw("arms_exhausted", int(value[a] <= 0))
            ctx.expect(scalar(r) == want, "arms:reward", "reward of a legal pull, an illegal pull or idling", action=a, legal=legal.tolist(), got=r, want=want)
            ctx.saw("arms_full_length", int(t == 50))
            if not ctx.expect(bool(done) == (end or t == 50), "arms:termination", "the episode must end at an illegal pull or exactly at the declared horizon", t=t, done=done, illegal=end):
                break
    env.reset()
    refuses(ctx, "arms:bad-action", lambda: env.step(6))
    refuses(ctx, "arms:bad-action", lambda: env.step(-1))


# ----------------------------------------------------------------- pocman
MOVES = {P.Action.UP: (-1, 0), P.Action.RIGHT: (0, 1), P.Action.DOWN: (1, 0), P.Action.LEFT: (0, -1)}
OPPOSITE = {P.Action.UP: P.Action.DOWN, P.Action.DOWN: P.Action.UP, P.Action.LEFT: P.Action.RIGHT, P.Action.RIGHT: P.Action.LEFT}
NAMES = {0: "up", 1: "right", 2: "down", 3: "left"}


class Board:
    def __init__(self, b):
        self.maze = np.array(b["_maze"]).copy()
        self.home, self.start = tuple(b["_ghost_home"]), tuple(b["_poc_home"])
        self.n, self.reach, self.smell, self.hear = b["_num_ghosts"], b["_ghost_range"], b["_smell_range"], b["_hear_range"]
        self.duration, self.limit = b["_power_duration"], b["_max_step"]

    def go(self, p, a):
        q = (p[0] + MOVES[a][0], p[1] + MOVES[a][1])
        inside = 0 <= q[0] < self.maze.shape[0] and 0 <= q[1] < self.maze.shape[1]
        return q if inside and self.maze[q] != P.Element.WALL else p

    def near(self, p):
        return {a: self.go(p, a) for a in MOVES if self.go(p, a) != p}

    def observe(self, me, ghosts):
        out = [-1.] * 4 + [0.] * 6
        for a in MOVES:
            cells, p = {me}, me
            while True:
                q = self.go(p, a)
                if q == p:
                    break
                cells.add(q)
                p = q
            if any(g in cells for g in ghosts):
                out[a] = 1.
            out[4 + a] = float(self.go(me, a) == me)
        out[8] = float(any(abs(g[0] - me[0]) + abs(g[1] - me[1]) <= self.hear for g in ghosts))
        out[9] = float(any(self.maze[x, y] == P.Element.FOOD_PELLET for x in range(max(0, me[0] - self.smell), min(self.maze.shape[0], me[0] + self.smell + 1))
                           for y in range(max(0, me[1] - self.smell), min(self.maze.shape[1], me[1] + self.smell + 1))))
        return out

    def ghost_moves(self, ghost, me, power, came):
        """the cells a ghost may move to: towards, away or at random; both ways of measuring distance are accepted"""
        near, kinds = self.near(ghost), {}
        for how in (lambda p: math.hypot(p[0] - me[0], p[1] - me[1]), lambda p: abs(p[0] - me[0]) + abs(p[1] - me[1])):
            if how(ghost) < self.reach:
                pick = max if power else min
                best = pick(how(q) for q in near.values())
                kinds.setdefault("defensive" if power else "aggressive", set()).update(q for q in near.values() if how(q) == best)
            else:
                free = {q for a, q in near.items() if came is None or len(near) == 1 or a != OPPOSITE.get(came)}
                kinds.setdefault("random", set()).update(free)
        return kinds


def guided(rng, b, me, ghosts, power, nerve):
    """towards the nearest pellet, keeping away from ghosts unless powered"""
    seen, queue, first = {me}, collections.deque([(me, None)]), None
    while queue:
        p, a0 = queue.popleft()
        if b.maze[p] in (P.Element.FOOD_PELLET, P.Element.POWER) and a0 is not None or power and p in ghosts and a0 is not None and rng.random() < .7:
            first = a0
            break
        for a, q in sorted(b.near(p).items(), key=lambda _: rng.random()):
            if q in seen or not power and any(abs(q[0] - g[0]) + abs(q[1] - g[1]) <= nerve for g in ghosts):
                continue
            seen.add(q)
            queue.append((q, a if a0 is None else a0))
    if first is None:
        near = b.near(me)
        return max(near, key=lambda a: (min(abs(near[a][0] - g[0]) + abs(near[a][1] - g[1]) for g in ghosts), rng.random()))
    return first


def flee(rng, b, me, ghosts):
    near = dict(b.near(me))
    near[None] = me
    a = max(near, key=lambda a: (min(abs(near[a][0] - g[0]) + abs(near[a][1] - g[1]) for g in ghosts), rng.random()))
    return next(i for i in MOVES if b.go(me, i) == me) if a is None and any(b.go(me, i) == me for i in MOVES) else (a if a is not None else rng.randrange(4))


def random_board(rng):
    """another maze for the same rules: connected, with every kind of cell"""
    while True:
        h, w = rng.randint(2, 6), rng.randint(3, 6)
        maze = np.array([[rng.choices([0, 1, 2, 3], [3, 3, 1, 5])[0] for _ in range(w)] for _ in range(h)], dtype=np.int8)
        free = [tuple(map(int, p)) for p in np.argwhere(maze != P.Element.WALL)]
        if len(free) < 4 or not np.any(maze == P.Element.FOOD_PELLET):
            continue
        seen, queue = {free[0]}, [free[0]]
        while queue:
            x, y = queue.pop()
            for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                if q in free and q not in seen:
                    seen.add(q)
                    queue.append(q)
        if len(seen) == len(free):
            a, b = rng.sample(free, 2)
            return dict(_maze=maze, _num_ghosts=rng.randint(1, 3), _ghost_range=rng.randint(2, 4), _ghost_home=a, _poc_home=b, _smell_range=rng.randint(1, 2), _hear_range=rng.randint(1, 2),
                        _power_duration=rng.randint(2, 15), _max_step=rng.randint(5, 40))


def pocman_env(rng, style):
    """the registered environment, or (if it reads its board where it does today) with a shorter limit or another maze"""
    original = P.MICRO
    board = original if style in ("random", "careful", "bold") else random_board(rng) if style == "maze" else dict(original, _max_step=rng.randint(5, 30))
    try:
        P.MICRO = board
        env = Gym(env_name="Pocman-v0")
    finally:
        P.MICRO = original
    maze = getattr(env.unwrapped, "maze", None)
    if board is not original and not (env.max_steps == board["_max_step"] and maze is not None and np.array_equal(maze, board["_maze"])):
        return Gym(env_name="Pocman-v0"), original
    return env, board


def pocman(ctx, rng, style):
    env, board = pocman_env(rng, style)
    env.seed(rng.randrange(10 ** 6))
    b = Board(board)
    ctx.expect(env.max_steps == b.limit, "pocman:horizon", "declared limit", got=env.max_steps)
    obs = env.reset()
    me, ghosts, came, power, t, done = b.start, [b.home] * b.n, [None] * b.n, 0, 0, False
    contract(ctx, "pocman", env, obs)
    ctx.expect(list(map(float, obs)) == b.observe(me, ghosts), "pocman:observation", "the first observation", got=list(obs), want=b.observe(me, ghosts))
    wait = rng.randrange(0, 60)
    while not done:
        if style == "random":
            a = rng.randrange(4)
        elif style == "short":
            a = rng.randrange(4) if t < 2 else guided(rng, b, me, ghosts, power > 1, 2)
        elif style == "bold":
            a = guided(rng, b, me, ghosts, power > 1, 0)
        else:
            a = guided(rng, b, me, ghosts, power > 1, 1) if t > wait or rng.random() < .8 else flee(rng, b, me, ghosts)
        obs, r, done, info = env.step(a)
        t += 1
        s = info["state"]
        got_me, got = tuple(s.agent_pos), [tuple(g.pos) for g in s.ghosts]
        contract(ctx, "pocman", env, obs, r, done)
        ctx.saw("poc_steps")
        w = dict(action=NAMES[a], before=me, ghosts_before=ghosts, after=got_me, ghosts_after=got, power=power, maze=b.maze.tolist(), t=t)
        me = b.go(me, a)
        if not ctx.expect(got_me == me, "pocman:agent-move", "the agent did not move as told (walls block)", want=me, **w):
            return
        power = max(power - 1, 0)
        eaten, caught, why = 0, False, True
        new_came = []
        for g in range(b.n):
            if caught:
                ok = got[g] == ghosts[g] or got[g] in set().union(*b.ghost_moves(ghosts[g], me, power > 0, came[g]).values())
            elif ghosts[g] == me:
                ok = got[g] == (b.home if power else ghosts[g]) or got[g] == ghosts[g]
                eaten, caught = eaten + bool(power), caught or not power
                ok = ok and (not power or got[g] == b.home)
            else:
                kinds = b.ghost_moves(ghosts[g], me, power > 0, came[g])
                allowed = set().union(*kinds.values())
                if len(kinds) == 1:
                    ctx.saw("poc_" + next(iter(kinds)))
                if power and me in allowed and got[g] == b.home and not (b.home in allowed and b.home != me):
                    eaten, ok = eaten + 1, True
                else:
                    ok = got[g] in allowed
                    if got[g] == me:
                        if power:
                            eaten += 1  # moved onto the agent standing at the ghosts' home
                            ok = me == b.home
                        else:
                            caught = True
            step = [d for d in MOVES if got[g] != ghosts[g] and b.go(ghosts[g], d) == got[g]]
            new_came.append(step[0] if step else None)
            if not ctx.expect(ok, "pocman:ghost-move", "a ghost's move is not one it may make: towards the agent in range, away from a powered one, else at random without turning back", ghost=g, **w):
                return
        # ghosts after the one that caught the agent have moved as well
        came = [d if abs(x[0] - y[0]) + abs(x[1] - y[1]) == 1 else None for d, x, y in zip(new_came, ghosts, got)]
        ghosts = got
        want = -1 + 25 * eaten - 100 * caught
        ctx.saw("poc_eaten", eaten)
        ctx.saw("poc_caught", int(caught))
        cleared = False
        if b.maze[me] == P.Element.FOOD_PELLET:
            want += 10
            b.maze[me] = P.Element.CLEAR_WALK_WAY
            cleared = not np.any(b.maze == P.Element.FOOD_PELLET)
        elif b.maze[me] == P.Element.POWER:
            want += 10
            power = b.duration
            b.maze[me] = P.Element.CLEAR_WALK_WAY
        ctx.saw("poc_cleared", int(cleared))
        ctx.saw("poc_timeout", int(t == b.limit and not caught and not cleared))
        ctx.expect(scalar(r) == want, "pocman:reward", "reward: -1 a step, 10 a pellet or power pill, 25 a ghost eaten, -100 when caught", got=r, want=want, eaten=eaten, caught=caught, **w)
        ctx.expect(s.power_duration == power, "pocman:power", "remaining power", got=s.power_duration, want=power, t=t)
        see = b.observe(me, ghosts)
        ctx.saw("poc_seen", int(max(see[:4]) > 0))
        ctx.expect(list(map(float, obs)) == see, "pocman:observation", "the ten features: ghosts seen, walls felt, ghost heard, food smelt", got=list(map(float, obs)), want=see, **w)
        if not ctx.expect(bool(done) == (caught or cleared or t == b.limit), "pocman:termination", "an episode ends when caught, when no pellet is left or exactly at the declared horizon",
                          done=done, caught=caught, cleared=cleared, **w):
            return
    refuses(ctx, "pocman:step-after-end", lambda: env.step(0))
    env.reset()
    refuses(ctx, "pocman:bad-action", lambda: env.step(4))


# ----------------------------------------------------------------- toy value model
def toy_vm(ctx, rng):
    n, limit = rng.randint(1, 7), rng.randint(3, 40)
    env = ToyVM(slate_size=n, max_episode_steps=limit, initial_seed=rng.choice([0, 3, None]))
    for _ in range(2):
        obs, done, t = env.reset(), False, 0
        while not done:
            contract(ctx, "toyvm", env, obs)
            docs = [np.array(obs["doc"][str(k)], dtype=float) for k in range(n)]
            ctx.expect(len(obs["doc"]) == n and all(v["value"] == 0. for v in obs["augmentation"].values()) and list(obs["augmentation"]) == list(obs["doc"]),
                       "toyvm:value", "the documents carry a value of zero each", obs=repr(obs)[:400])
            x = env.obs_preprocessor(obs)
            ctx.close(x.candidate_docs.float_features.double(), torch.tensor(np.stack(docs)).unsqueeze(0), "toyvm:preprocess", rtol=1e-6, atol=1e-7)
            action = [rng.randrange(n) for _ in range(n)] if rng.random() < .5 else rng.sample(range(n), n)
            obs, r, done, _ = env.step(np.array(action))
            t += 1
            ctx.saw("vm_steps")
            contract(ctx, "toyvm", env, obs, r, done)
            sums = [0.] + list(itertools.accumulate(docs[i][1] for i in action))
            ctx.expect(min(abs(scalar(r) - s) for s in sums) < 1e-5, "toyvm:reward", "the reward is not the total quality of the first documents of the slate", got=r, allowed=sums, action=action)
            if not ctx.expect(bool(done) == (t == limit), "toyvm:termination", "the episode does not end exactly at its limit", t=t, limit=limit, done=done):
                break


def toy_vm_chance(ctx, rng, nrng):
    slate = [Document(tap=rng.random(), quality=2. ** -k, abandon=rng.random() * .8) for k in range(rng.randint(1, 5))]
    prng = np.random.RandomState(nrng.integers(2 ** 31))
    probs, alive = [1 - slate[0].tap], slate[0].tap
    for k, d in enumerate(slate):
        stop = 1. if k + 1 == len(slate) else d.abandon
        probs.append(alive * stop)
        alive *= 1 - stop
    totals = [0.] + list(itertools.accumulate(d.quality for d in slate))
    counts, n = [0] * len(totals), ctx.n(1500, 20000)
    for _ in range(n):
        r = simulate_reward(slate, prng)
        k = int(np.argmin([abs(r - s) for s in totals]))
        if not ctx.expect(abs(r - totals[k]) < 1e-9, "toyvm:cascade-reward", "the reward is not a sum over the first documents", got=r, allowed=totals):
            return
        counts[k] += 1
    ctx.saw("vm_chance", n)
    ok, why = multinomial_ok(counts, probs)
    ctx.expect(ok, "toyvm:cascade", "how far the user reads does not follow the tap and abandon probabilities", counts=counts, probs=probs, why=str(why))
    ctx.expect(simulate_reward([], prng) == 0, "toyvm:empty-slate", "an empty slate earns nothing")


# ----------------------------------------------------------------- oracle ranking
def oracle(ctx, rng, nrng):
    n, w, c = rng.randint(2, 6), 3, 3
    if rng.random() < .4:
        w, c = rng.choice([(1, 2), (2, 4), (4, 4)])
    env = OraclePVM(num_candidates=n, slate_size=n, num_weights=w, candidate_feat_dim=c, user_feat_dim=rng.randint(1, 3))
    for _ in range(20):
        obs = env.reset()
        ctx.expect(all(in_space(env.observation_space[k], obs[k]) for k in ("user", "doc")), "oracle:observation-space", "user or candidate features are outside the declared space",
                   obs=repr(obs)[:600], space=str(env.observation_space)[:300])
        doc = np.stack(list(obs["doc"].values()))
        action = nrng.uniform(-1, 1, w) if rng.random() < .7 else np.full(w, rng.uniform(.1, 1))
        if rng.random() < .3:
            action = 1 + .3 * nrng.normal(size=w)
        truth, mine = doc[:, :w].sum(1), (doc[:, :w] * action).sum(1)
        _, r, done, _ = env.step(action.astype(rng.choice([np.float32, np.float64])))
        ctx.saw("steps")
        ctx.saw("oracle_steps")
        gaps = [abs(x - y) for v in (truth, mine) for x, y in itertools.combinations(v, 2)]
        if min(gaps) < 1e-5:
            continue
        tau = np.mean([np.sign((truth[i] - truth[j]) * (mine[i] - mine[j])) for i, j in itertools.combinations(range(n), 2)])
        want = 3. if tau == 1 else tau
        ctx.saw("oracle_match", int(tau == 1))
        ctx.close(scalar(r), want, "oracle:reward", rtol=1e-6, atol=1e-9)
        ctx.expect(env.is_match(r) == (tau == 1), "oracle:match", "a match is reported exactly for the true ranking", reward=r, tau=tau)
        ctx.expect(bool(done), "oracle:termination", "an episode is one ranking", done=done)
    refuses(ctx, "oracle:partial-slate", lambda: OraclePVM(num_candidates=4, slate_size=3))


# ----------------------------------------------------------------- recsim wrapper and grid
def rec(ctx, rng):
    kind = rng.choice(["single", "multi", "explore"])
    n, k = rng.randint(2, 7), None
    k = rng.randint(1, n)
    make = lambda: RecSim(num_candidates=n, slate_size=k, resample_documents=rng_choice, single_selection=kind != "multi", is_interest_exploration=kind == "explore", initial_seed=seed)
    rng_choice, seed = rng.random() < .6, rng.randint(1, 1000)
    a, b = make(), make()
    oa, ob = a.reset(), b.reset()
    users = []
    for t in range(rng.randint(3, 8)):
        ctx.expect(repr(oa) == repr(ob), "recsim:seed", "two environments of one seed differ", t=t)
        users.append((oa["user"], oa["user"].copy()))
        ctx.expect(len(oa["doc"]) == n, "recsim:candidates", "number of candidates", got=len(oa["doc"]), want=n)
        for d, doc in oa["doc"].items():
            want = 0. if kind == "explore" else float(np.dot(oa["user"], doc))
            want = (want + 1) / 2 if kind == "multi" else want
            ctx.close(float(oa["augmentation"][d]["value"]), want, "recsim:value", rtol=1e-6, atol=1e-9)
        ctx.expect(list(oa["augmentation"]) == list(oa["doc"]), "recsim:value-keys", "a document has no value", docs=list(oa["doc"]), values=list(oa["augmentation"]))
        slate = np.array(rng.sample(range(n), k))
        s = rng.randrange(10 ** 6)
        np.random.seed(s)  # the user's choices come from numpy's global generator
        oa, ra, da, _ = a.step(slate)
        np.random.seed(s)
        ob, rb, db, _ = b.step(slate)
        ctx.saw("steps")
        ctx.saw("recsim_steps")
        ctx.expect((ra, da) == (rb, db), "recsim:seed", "two environments of one seed differ", t=t)
        resp = oa["response"]
        ctx.expect(len(resp) == k, "recsim:responses", "one response for each position of the slate", got=len(resp), want=k)
        if da:
            break
    ctx.expect(all(np.array_equal(x, y) for x, y in users), "recsim:user-shared", "the user vector of an earlier observation changed with later steps")
    refuses(ctx, "recsim:unsupported", lambda: RecSim(num_candidates=4, slate_size=2, single_selection=False, is_interest_exploration=True))


def grid(ctx, rng):
    env = Gym(env_name=rng.choice(["MiniGrid-Empty-5x5-v0", "MiniGrid-Empty-6x6-v0", "MiniGrid-FourRooms-v0"] if ctx.thorough else ["MiniGrid-Empty-5x5-v0", "MiniGrid-Empty-6x6-v0"]))
    base = env.unwrapped
    seen = {}
    for _ in range(2):
        obs, done, t = env.reset(), False, 0
        while True:
            contract(ctx, "grid", env, obs)
            key = (tuple(int(v) for v in base.agent_pos), int(base.agent_dir))
            code = np.flatnonzero(obs)
            if not ctx.expect(len(code) == 1 and obs[code[0]] == 1, "grid:one-hot", "the observation does not name one place and direction", code=code.tolist()):
                return
            ctx.expect(seen.setdefault(int(code[0]), key) == key, "grid:unique", "two places or directions share one observation", code=int(code[0]), first=seen[int(code[0])], second=key)
            if done or t > 60:
                break
            obs, r, done, _ = env.step(rng.choice([0, 1, 2, 2]))
            t += 1
            ctx.saw("steps")
            ctx.saw("grid_steps")
            if not ctx.expect(t <= env.max_steps, "grid:horizon", "longer than the declared horizon", t=t):
                return
    inverse = collections.Counter(seen.values())
    ctx.expect(max(inverse.values()) == 1, "grid:unique", "one place and direction has two observations", seen=str(seen)[:300])


# ----------------------------------------------------------------- embedded states
def embedded(ctx, rng):
    discrete = rng.random() < .6
    raw = Gym(env_name="StringGame-v0", set_max_steps=rng.choice([6, 12])) if discrete else Gym(env_name="LinearDynamics-v0")
    sd, ad = raw.observation_space.shape[0], 2
    hid, window = rng.randint(2, 6), rng.randint(1, 5)
    net = MemoryNetwork(state_dim=sd, action_dim=ad, num_hiddens=hid, num_hidden_layers=rng.randint(1, 2), num_gaussians=2)
    env = StateEmbedEnvironment(raw, net, window, -50., 50.)
    ctx.expect(env.observation_space.shape == (hid + sd,) and env.action_space is raw.action_space, "embed:spaces", "declared spaces", got=str(env.observation_space))

    def embed(states, actions):
        if not states:
            states, actions = [np.zeros(sd)], [np.zeros(ad)]
        with torch.no_grad():
            s = torch.tensor(np.array(states)).float().unsqueeze(1)
            a = torch.tensor(np.array(actions)).float().unsqueeze(1)
            x = torch.cat([a, s], dim=-1)
            for name, lstm in net.mdnrnn.named_modules():
                if isinstance(lstm, torch.nn.LSTM):
                    return lstm(x)[0][-1, 0].numpy()

    for _ in range(3):
        train = rng.random() < .5
        net.train(train)
        obs = env.reset()
        states, actions, last, done = [], [], None, False
        ctx.expect(in_space(env.observation_space, obs), "embed:space", "outside the declared space", obs=obs.tolist())
        ctx.close(torch.tensor(obs[:hid]).double(), torch.tensor(embed([], [])).double(), "embed:first", rtol=1e-4, atol=1e-6)
        last = np.array(obs[hid:])
        while not done:
            a = rng.randrange(2) if discrete else np.array([rng.uniform(-3, 3), rng.uniform(-3, 3)])
            obs, r, done, _ = env.step(a)
            states.append(last)
            actions.append(np.eye(2)[a] if discrete else a)
            want = embed(states[-window:], actions[-window:])
            ctx.saw("steps")
            ctx.saw("embed_steps")
            ctx.saw("embed_window", int(len(states) > window))
            ctx.close(torch.tensor(obs[:hid]).double(), torch.tensor(want).double(), "embed:window", rtol=1e-4, atol=1e-6)
            if discrete:
                ctx.expect(obs[hid:].tolist() == np.eye(2)[a].tolist(), "embed:raw", "the raw observation is not the environment's", obs=obs.tolist(), action=a)
            else:
                v = np.clip(a, -3, 3)
                ctx.close(torch.tensor(obs[hid:]).double(), torch.tensor(A @ last + B @ v).double(), "embed:raw", rtol=1e-4, atol=1e-5)
            last = np.array(obs[hid:])
        ctx.expect(net.mdnrnn.training == train, "embed:mode", "embedding left the model in another mode", before=train, after=net.mdnrnn.training)


# ----------------------------------------------------------------- repeatability
def trace(env, seed, actions, own_seed):
    seed_everything(seed)
    if own_seed:
        env.seed(seed)
    out, obs = [], env.reset()
    out.append(repr(np.asarray(obs).tolist() if not isinstance(obs, dict) else obs))
    masks = lambda: repr(np.asarray(getattr(env, "possible_actions_mask", None)).tolist())
    out.append(masks())
    for a in actions:
        obs, r, done, _ = env.step(a)
        out += [repr(np.asarray(obs).tolist() if not isinstance(obs, dict) else obs), scalar(r), bool(done), masks()]
        if done:
            break
    return out


def replay(ctx, rng):
    kinds = {
        "StringGame-v0": lambda: rng.randrange(2), "StringGame-v1": lambda: rng.randrange(2), "Pocman-v0": lambda: rng.randrange(4), "PossibleActionsMaskTester-v0": lambda: rng.randrange(4),
        "LinearDynamics-v0": lambda: np.array([rng.gauss(0, 2), rng.gauss(0, 2)]), "ChangingArms": lambda: rng.choice([0, 1, 1, 1, 2, 3, 4, 5]), "ToyVM": lambda: np.array([rng.randrange(4) for _ in range(4)]),
    }
    for name, draw in kinds.items():
        make = {"ChangingArms": ChangingArms, "ToyVM": lambda: ToyVM(slate_size=4)}.get(name, lambda: Gym(env_name=name))
        own = name not in ("LinearDynamics-v0", "PossibleActionsMaskTester-v0")
        actions, seed = [draw() for _ in range(60)], rng.randrange(1, 10 ** 6)
        first = trace(make(), seed, actions, own)
        used = make()
        used.reset()
        for _ in range(rng.randrange(0, 12)):  # abandoned part of an episode, perhaps past its end
            if used.step(draw())[2]:
                if rng.random() < .5:
                    break
                used.reset()
        again = trace(used, seed, actions, own)
        ctx.saw("replays")
        k = next((i for i, (x, y) in enumerate(zip(first, again)) if x != y), None)
        ctx.expect(first == again, "replay:" + name, "an environment reset after an abandoned episode does not repeat a fresh one under the same seed", differs_at=k,
                   fresh=first[k] if k is not None else len(first), used=again[k] if k is not None else len(again))
        if own and name not in ("StringGame-v0",):
            other = trace(make(), seed + 1, actions, own)
            ctx.saw("replay_other_seed_differs", int(other != first))
    for s in (0, 5):
        a, b = (ToyVM(slate_size=4, initial_seed=s) for _ in range(2))
        acts = [kinds["ToyVM"]() for _ in range(10)]
        run = lambda e: [repr(e.reset())] + [repr(e.step(x)[:2]) for x in acts]
        ctx.expect(run(a) == run(b), "toyvm:initial-seed", "two environments of one initial seed differ", initial_seed=s)


def run(ctx):
    with ctx.part("string"):
        tally = {"A": [0, 0], "B": [0, 0]}
        for i in range(ctx.n(20, 200)):
            with ctx.case("string", dict(i=i)):
                string_game(ctx, ctx.sub(f"string{i}"))
        for i in range(ctx.n(6, 60)):
            with ctx.case("string1", dict(i=i)):
                string_game_v1(ctx, ctx.sub(f"string1{i}"), tally)
        with ctx.case("string1-chance", tally):
            for c, p in (("A", .5), ("B", .1)):
                ctx.expect(binom_ok(tally[c][1], tally[c][0], p), "string1:chance", "how often the game stops after a character is not as stated", character=c, seen=tally[c], p=p)
    with ctx.part("lqr"):
        starts = set()
        for i in range(ctx.n(8, 80)):
            with ctx.case("lqr", dict(i=i)):
                ctx.seed_all(f"lqr{i}")
                lqr(ctx, ctx.sub(f"lqr{i}"), starts)
        with ctx.case("lqr-starts", sorted(starts)):
            ctx.expect(starts == {-1., 0., 1.}, "lqr:reset", "some initial coordinates never occur", seen=sorted(starts))
    with ctx.part("mask"):
        tally = [0] * 4
        for i in range(ctx.n(12, 100)):
            with ctx.case("mask", dict(i=i)):
                ctx.seed_all(f"mask{i}")
                mask_tester(ctx, ctx.sub(f"mask{i}"), tally)
        with ctx.case("mask-chance", tally):
            ok, why = multinomial_ok(tally, [.25] * 4)
            ctx.expect(ok, "mask:chance", "the possible action is not uniformly drawn", counts=tally, why=str(why))
    with ctx.part("arms"):
        tally = [[0, 0] for _ in range(5)]
        for i in range(ctx.n(25, 250)):
            with ctx.case("arms", dict(i=i)):
                arms(ctx, ctx.sub(f"arms{i}"), tally)
        with ctx.case("arms-chance", tally):
            for (n, k), p in zip(tally, PROBS):
                ctx.expect(binom_ok(k, n, p) if p < 1 else k == n, "arms:chance", "how often an arm is offered is not as stated", seen=(n, k), p=p)
    with ctx.part("pocman"):
        for i in range(ctx.n(150, 1500)):
            style = ("random", "careful", "maze", "bold", "short", "maze")[i % 6]
            with ctx.case("pocman", dict(i=i, style=style)):
                pocman(ctx, ctx.sub(f"poc{i}"), style)
    with ctx.part("ranking"):
        for i in range(ctx.n(10, 80)):
            with ctx.case("toyvm", dict(i=i)):
                ctx.seed_all(f"vm{i}")
                toy_vm(ctx, ctx.sub(f"vm{i}"))
        for i in range(ctx.n(4, 12)):
            with ctx.case("toyvm-chance", dict(i=i)):
                toy_vm_chance(ctx, ctx.sub(f"vmc{i}"), ctx.nprng(f"vmc{i}"))
        for i in range(ctx.n(16, 120)):
            with ctx.case("oracle", dict(i=i)):
                ctx.seed_all(f"or{i}")
                oracle(ctx, ctx.sub(f"or{i}"), ctx.nprng(f"or{i}"))
        for i in range(ctx.n(16, 120)):
            with ctx.case("recsim", dict(i=i)):
                rec(ctx, ctx.sub(f"rec{i}"))
    with ctx.part("grid"):
        for i in range(ctx.n(5, 40)):
            with ctx.case("grid", dict(i=i)):
                grid(ctx, ctx.sub(f"grid{i}"))
    with ctx.part("embed"):
        for i in range(ctx.n(12, 100)):
            with ctx.case("embed", dict(i=i)):
                ctx.seed_all(f"emb{i}")
                embedded(ctx, ctx.sub(f"emb{i}"))
    with ctx.part("replay"):
        for i in range(ctx.n(10, 80)):
            with ctx.case("replay", dict(i=i)):
                replay(ctx, ctx.sub(f"rep{i}"))
