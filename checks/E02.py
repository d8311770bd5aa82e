"""E02: sequential off-policy estimates equal their textbook definitions."""
import vf.quiet  # noqa
import copy
import math
import os
import random
import shutil
import tempfile

import numpy as np
import torch
from reagent.ope.estimators.sequential_estimators import (
    DMEstimator, DoublyRobustEstimator, EpsilonGreedyRLPolicy, IPSEstimator, MAGICEstimator, NeuralDualDICE, RandomRLPolicy,
    RewardProbability, RLEstimatorInput, RLPolicy, State, Transition, ValueFunction)
from reagent.ope.estimators.types import Action, ActionSpace
from reagent.ope.test.envs import Environment
from reagent.ope.trainers.rl_tabular_trainers import DPTrainer, DPValueFunction, EstimatedStateValueFunction, MonteCarloValueFunction, TabularPolicy
from reagent.ope.utils import Clamper

RULE = (
    "Random terminating Markov decision processes and random tabular behaviour and target policies give logs of unequal-length "
    "trajectories; every estimate (direct, per-decision importance with and without self-normalisation and clipping, doubly robust, "
    "MAGIC) is recomputed trajectory by trajectory in double precision, with trajectories that have ended counting with their final "
    "weight and no reward. With target = behaviour the importance estimates must be the mean logged return, and with exact values on "
    "a deterministic process the doubly-robust ones the true value. MAGIC's mixture must lie within its step returns and lower the "
    "declared error objective. Tabular values are compared with the linear solution of the Bellman equations, the trained greedy "
    "policy with value iteration, and the Monte-Carlo values statistically; each DualDICE update is replayed on copies of its networks."
)
REQUIRED = {"logs": 60, "ragged": 30, "estimates": 250, "on_policy": 20, "exact_dr": 15, "magic": 12, "magic_moved": 3, "bellman_states": 60, "optimal_policies": 5, "mc_states": 10, "policy_dists": 60, "dice_steps": 40}


class TablePolicy(RLPolicy):
    def __init__(self, space, table):
        super().__init__(space)
        self.table = table

    def action_dist(self, state):
        return self._action_space.distribution([float(x) for x in self.table[state.value]])


class TableValue(ValueFunction):
    def __init__(self, V, Q):
        self.V, self.Q = V, Q

    def state_action_value(self, state, action):
        return float(self.Q[state.value][action.value])

    def state_value(self, state):
        return float(self.V[state.value])

    def reset(self):
        pass


class Mdp:
    """Layered process: every step moves to a later state or (with loops) may stay; state n is terminal."""

    def __init__(self, r, n, k, deterministic=False, loops=False):
        self.n, self.k = n, k
        self.P = np.zeros((n, k, n + 1))
        for s in range(n):
            for a in range(k):
                later = np.arange(0 if loops else s + 1, n + 1)
                if deterministic:
                    self.P[s, a, r.choice(later)] = 1
                else:
                    w = r.random(len(later)) * (r.random(len(later)) < 0.7)
                    w[-1] += 0.3 + (2.0 if loops else 0)
                    self.P[s, a, later] = w / w.sum()
        self.R = r.normal(size=(n, k, n + 1)).round(3)

    def values(self, pi, gamma):
        A, b = np.eye(self.n), np.zeros(self.n)
        for s in range(self.n):
            for a in range(self.k):
                b[s] += pi[s, a] * (self.P[s, a] * self.R[s, a]).sum()
                A[s] -= gamma * pi[s, a] * self.P[s, a, : self.n]
        V = np.linalg.solve(A, b)
        Q = (self.P * (self.R + gamma * np.append(V, 0.0))).sum(2)
        return V, Q

    def run(self, r, pi, cap=30):
        s, out = 0 if r.random() < 0.5 else int(r.integers(self.n)), []
        while s != self.n and len(out) < cap:
            a = int(r.choice(self.k, p=pi[s]))
            t = int(r.choice(self.n + 1, p=self.P[s, a]))
            out.append((s, a, float(pi[s, a]), t, float(self.R[s, a, t])))
            s = t
        return out


class Env(Environment):
    def __init__(self, mdp, cap=-1):
        super().__init__(cap)
        self.mdp = mdp

    def st(self, s):
        return State(s, s == self.mdp.n)

    def reset(self, state=None):
        super().reset(state)
        if self._current_state is None:
            self._current_state = self.st(0)
        return self._current_state

    def close(self):
        pass

    def next_state_reward_dist(self, state, action):
        if state.value == self.mdp.n:
            return {state: RewardProbability(0.0, 1.0)}
        p = self.mdp.P[state.value, action.value]
        return {self.st(t): RewardProbability(float(self.mdp.R[state.value, action.value, t]), float(p[t])) for t in range(self.mdp.n + 1) if p[t] > 0}

    @property
    def observation_space(self):
        return (1,), ((0, self.mdp.n),)

    @property
    def states(self):
        for s in range(self.mdp.n):
            yield State(s)


def policy_table(r, n, k, kind):
    if kind == "greedy":
        return np.eye(k)[r.integers(0, k, size=n)]
    t = r.random((n, k)) + 0.15
    if kind == "sparse":
        t *= r.random((n, k)) < 0.7
        t[t.sum(1) == 0, 0] = 1
    return t / t.sum(1, keepdims=True)


def to_log(traces, n):
    return [[Transition(last_state=State(s), action=Action(a), action_prob=p, state=State(t, t == n), reward=rew,
                        status=Transition.Status.TERMINATED if j == len(tr) - 1 else Transition.Status.NORMAL) for j, (s, a, p, t, rew) in enumerate(tr)] for tr in traces]


def weights(traces, pi, weighted, lo, hi):
    """n x T per-step weights, zero after a trajectory's end."""
    n, T = len(traces), max(map(len, traces))
    rho, alive = np.ones((n, T)), np.zeros((n, T), bool)
    for i, tr in enumerate(traces):
        w = 1.0
        for j in range(T):
            if j < len(tr):
                w *= pi[tr[j][0], tr[j][1]] / tr[j][2]
                alive[i, j] = True
            rho[i, j] = w
    den = rho.sum(0) if weighted else np.full(T, float(n))
    den = np.where(den < 1e-15, den + n, den)
    return np.clip(np.where(alive, rho, 0.0) / den, lo, hi), alive


def mean_return(traces, gamma):
    return float(np.mean([sum(gamma ** j * t[4] for j, t in enumerate(tr)) for tr in traces]))


def table(traces, f):
    out = np.zeros((len(traces), max(map(len, traces))))
    for i, tr in enumerate(traces):
        for j, t in enumerate(tr):
            out[i, j] = f(t)
    return out


def one(ctx, res, mech):
    ctx.require(len(res.results) == 1, mech + "-one-result", f"{res}")
    return res.results[0]


def logs(ctx, rng, i):
    r = rng
    n, k, m = int(r.integers(1, 6)), int(r.integers(1, 4)), int(r.integers(1, 8))
    gamma = float(r.choice([0.0, 0.5, 0.9, 1.0, r.random()]))
    det = r.random() < 0.3
    mdp = Mdp(r, n, k, deterministic=det)
    b = policy_table(r, n, k, "soft")
    same = r.random() < 0.3
    pi = b if same else policy_table(r, n, k, str(r.choice(["soft", "sparse", "greedy"])))
    traces = [mdp.run(r, b) for _ in range(m)]
    if r.random() < 0.3:  # truncated logs
        traces = [t[: int(r.integers(1, len(t) + 1))] for t in traces]
    with ctx.case("log", f"n={n} k={k} m={m} gamma={gamma:.2f} same={same} lens={list(map(len, traces))}", distinct=f"l{i}"):
        ctx.saw("logs")
        ctx.saw("ragged", len(set(map(len, traces))) > 1)
        space = ActionSpace(k)
        V, Q = r.normal(size=n), r.normal(size=(n, k))
        gV = r.normal(size=n)
        gt = None if r.random() < 0.4 else TableValue(gV, np.zeros((n, k)))
        inp = RLEstimatorInput(gamma=gamma, log=to_log(traces, n), target_policy=TablePolicy(space, pi), value_function=TableValue(V, Q), ground_truth=gt)
        ret = mean_return(traces, gamma)
        T = max(map(len, traces))
        disc = np.array([gamma ** j for j in range(T)])
        rs, vs, qs = table(traces, lambda t: t[4]), table(traces, lambda t: V[t[0]]), table(traces, lambda t: Q[t[0], t[1]])

        def common(x, mech):
            ctx.saw("estimates")
            ctx.close(x.log_reward, ret, mech + "-log-reward", rtol=1e-5, atol=1e-6)
            ctx.close(x.ground_truth_reward, 0.0 if gt is None else np.mean([gV[tr[0][0]] for tr in traces]), mech + "-ground-truth", rtol=1e-5, atol=1e-6)

        x = one(ctx, DMEstimator().evaluate(inp), "dm")
        common(x, "dm")
        ctx.close(x.estimated_reward, np.mean([V[tr[0][0]] for tr in traces]), "direct-method", rtol=1e-5, atol=1e-6)
        for weighted in (True, False):
            lo, hi = (-math.inf, math.inf) if r.random() < 0.5 else (float(r.choice([0.0, 0.05])), float(0.1 + r.random()))
            clamp = None if math.isinf(hi) else Clamper(lo, hi)
            ws, alive = weights(traces, pi, weighted, lo, hi)
            # a floor on the weights of ended trajectories multiplies zero reward
            x = one(ctx, IPSEstimator(clamp, weighted=weighted).evaluate(inp), "ips")
            common(x, "ips")
            mag = 1e-6 + 1e-5 * float(np.abs(ws * rs).sum())
            want = float(((ws * rs).sum(0) * disc).sum())
            ctx.close(x.estimated_reward, want, f"importance-{'weighted' if weighted else 'plain'}", rtol=1e-4, atol=mag)
            if same and clamp is None:
                ctx.saw("on_policy")
                ctx.close(x.estimated_reward, ret, "on-policy-return", rtol=1e-4, atol=mag)
            last = np.hstack([np.full((m, 1), 1.0 / m), ws[:, :-1]])
            x = one(ctx, DoublyRobustEstimator(clamp, weighted=weighted).evaluate(inp), "dr")
            common(x, "dr")
            want = float(((ws * (rs - qs) + last * vs).sum(0) * disc).sum())
            mag = 1e-6 + 1e-5 * float(np.abs(ws * rs).sum() + np.abs(ws * qs).sum() + np.abs(last * vs).sum())
            ctx.close(x.estimated_reward, want, f"doubly-robust-{'weighted' if weighted else 'plain'}", rtol=1e-4, atol=mag)
            if det and all(tr[-1][3] == n for tr in traces) and not math.isinf(-1):
                eV, eQ = mdp.values(pi, gamma)
                e_inp = RLEstimatorInput(gamma=gamma, log=inp.log, target_policy=inp.target_policy, value_function=TableValue(eV, eQ))
                x = one(ctx, DoublyRobustEstimator(weighted=weighted).evaluate(e_inp), "dr")
                ctx.saw("exact_dr")
                w2, _ = weights(traces, pi, weighted, -math.inf, math.inf)
                ctx.close(x.estimated_reward, np.mean([eV[tr[0][0]] for tr in traces]), "exact-values", rtol=1e-4, atol=1e-5 * (1 + float(np.abs(w2).sum()) * 10))


def magic(ctx, rng, i):
    r = rng
    n, k, m = int(r.integers(2, 4)), int(r.integers(2, 4)), int(r.integers(4, 20))
    gamma = float(r.choice([0.5, 0.9, 1.0]))
    mdp = Mdp(r, n, k)
    b, pi = policy_table(r, n, k, "soft"), policy_table(r, n, k, "soft")
    traces = [mdp.run(r, b) for _ in range(m)]
    if r.random() < 0.7:
        traces = [t[:2] for t in traces]
    with ctx.case("magic", f"n={n} m={m} lens={list(map(len, traces))}", distinct=f"mg{i}"):
        if r.random() < 0.7:  # a consistent but badly biased model: truncated returns are wrong, the full one is not
            V, Q = mdp.values(pi, gamma)
            Q = Q + float(r.choice([5.0, -5.0])) + r.normal(size=Q.shape) * 0.1
            V = (pi * Q).sum(1)
        else:
            V, Q = r.normal(size=n) * 2, r.normal(size=(n, k)) * 2
        inp = RLEstimatorInput(gamma=gamma, log=to_log(traces, n), target_policy=TablePolicy(ActionSpace(k), pi), value_function=TableValue(V, Q))
        T = max(map(len, traces))
        ws, _ = weights(traces, pi, True, -math.inf, math.inf)
        last = np.hstack([np.full((m, 1), 1.0 / m), ws[:, :-1]])
        disc = np.array([gamma ** j for j in range(T)])
        rs, vs, qs = table(traces, lambda t: t[4]), table(traces, lambda t: V[t[0]]), table(traces, lambda t: Q[t[0], t[1]])
        wdr = ((ws * (rs - qs) + last * vs) * disc).cumsum(1)
        nxt = np.hstack([vs[:, 1:], np.zeros((m, 1))])
        g = wdr + ws * nxt * disc * gamma
        steps = g.sum(0)
        dev = g - g.mean(0)
        om = m / (m - 1.0) * dev.T @ dev
        boots = []
        pr = np.random.default_rng(i)
        for _ in range(3000):
            ix = pr.integers(0, m, size=m)
            boots.append(float((((ws * (rs - qs) + last * vs)[ix]).sum(0) * disc).sum()))
        boots = np.sort(boots)
        lb, ub = min(wdr[:, -1].sum(), np.quantile(boots, 0.05)), max(wdr[:, -1].sum(), np.quantile(boots, 0.95))
        bias = np.where(steps > ub, steps - ub, np.where(steps < lb, steps - lb, 0.0))
        cov = om + np.outer(bias, bias)
        random.seed(i)
        x = one(ctx, MAGICEstimator().evaluate(inp, num_resamples=1500, loss_threshold=0.0, lr=1.0 / max(np.abs(cov).max(), 1e-6)), "magic")
        ctx.saw("magic")
        ctx.close(x.log_reward, mean_return(traces, gamma), "magic-log-reward", rtol=1e-5, atol=1e-6)
        tol = 1e-4 * (1 + np.abs(steps).max())
        ctx.expect(steps.min() - tol <= x.estimated_reward <= steps.max() + tol, "magic-within-step-returns", f"{x.estimated_reward} {steps}")
        if T == 2 and abs(steps[1] - steps[0]) > 1e-2:
            w1 = (x.estimated_reward - steps[0]) / (steps[1] - steps[0])

            def err(w):
                v = np.array([1 - w, w])
                return float(v @ cov @ v)

            grid = np.linspace(0, 1, 201)
            best = min(map(err, grid))
            ctx.expect(err(w1) <= err(0.5) * 1.1 + 1e-9, "magic-objective", f"error {err(w1)} with weight {w1}, {err(0.5)} with equal weights")
            if best < 0.5 * err(0.5):
                ctx.saw("magic_moved")
                ctx.expect(err(w1) < 0.85 * err(0.5), "magic-optimised", f"error {err(w1)} with weight {w1}, {err(0.5)} with equal weights, best {best}")
        if T == 1:
            ctx.close(x.estimated_reward, steps[0], "magic-single-step", rtol=1e-4, atol=1e-5)


def tabular(ctx, rng, i):
    r = rng
    n, k = int(r.integers(1, 6)), int(r.integers(1, 4))
    gamma = float(r.choice([0.0, 0.5, 0.9]))
    mdp = Mdp(r, n, k, loops=r.random() < 0.6)
    with ctx.case("tabular", f"n={n} k={k} gamma={gamma}", distinct=f"t{i}"):
        env, space = Env(mdp), ActionSpace(k)
        pi = policy_table(r, n, k, str(r.choice(["soft", "greedy"])))
        vf = DPValueFunction(TablePolicy(space, pi), env, gamma, threshold=1e-9)
        V, Q = mdp.values(pi, gamma)
        order = r.permutation(n)
        for s in order:
            ctx.saw("bellman_states")
            for a in r.permutation(k):
                ctx.close(vf(State(int(s)), Action(int(a))), Q[s, a], "bellman-action-value", rtol=1e-6, atol=1e-6)
            ctx.close(vf(State(int(s))), V[s], "bellman-state-value", rtol=1e-6, atol=1e-6)
        ctx.expect(vf(State(n, True)) == 0.0, "terminal-value", "")
        vf.reset(clear_state_values=bool(r.integers(2)))
        ctx.close([vf(State(s)) for s in range(n)], V, "bellman-after-reset", rtol=1e-6, atol=1e-6)
        # greedy policy iteration
        eps = float(r.choice([0.0, 0.2]))
        pol = TabularPolicy(space, epsilon=0.0)
        out = DPTrainer(env, pol).train(gamma, threshold=1e-9)
        W = np.zeros(n)
        for _ in range(400):
            W = (mdp.P * (mdp.R + gamma * np.append(W, 0.0))).sum(2).max(1)
        ctx.saw("optimal_policies")
        ctx.close([out(State(s)) for s in range(n)], W, "optimal-value", rtol=1e-5, atol=1e-5)
        QW = (mdp.P * (mdp.R + gamma * np.append(W, 0.0))).sum(2)
        for s in range(n):
            d = pol(State(s))
            chosen = [a for a in range(k) if d[Action(a)] > 1e-9]
            ctx.expect(all(QW[s, a] >= QW[s].max() - 1e-5 for a in chosen), "optimal-action", f"{s}: {chosen} {QW[s]}")
            ctx.close(sum(d[Action(a)] for a in range(k)), 1.0, "optimal-normalised")
        # policies
        pol = TabularPolicy(space, epsilon=eps)
        known = {}
        for s in range(n):
            if r.random() < 0.7:
                known[s] = policy_table(r, 1, k, "sparse")[0].tolist()
                pol.update(State(s), known[s])
        tmp = tempfile.mkdtemp(prefix="e02_")
        try:
            path = os.path.join(tmp, "p")
            ctx.expect(pol.save(path), "policy-save", "")
            other = TabularPolicy(ActionSpace(k), epsilon=float(r.choice([0.0, 0.5])))
            ctx.expect(other.load(path), "policy-load", "")
            ctx.expect(not other.load(os.path.join(tmp, "none")), "policy-load-missing", "")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        e2 = float(r.choice([0.0, 0.3]))
        for p in (pol, other):
            for s in range(n):
                base = np.array(known.get(s, [1.0 / k] * k))
                want = base * (1 - eps) + eps / k
                ctx.saw("policy_dists")
                ctx.close([p(State(s))[Action(a)] for a in range(k)], want, "tabular-policy" if p is pol else "reloaded-policy")
                ctx.close([EpsilonGreedyRLPolicy(p, e2)(State(s))[Action(a)] for a in range(k)], want * (1 - e2) + e2 / k, "epsilon-policy")
                ctx.close([p(State(s))[Action(a)] for a in range(k)], want, "epsilon-wraps-copy")
        ctx.expect(EpsilonGreedyRLPolicy(pol, e2).action_space is pol.action_space, "epsilon-action-space", "")
        ctx.close([RandomRLPolicy(space)(State(0))[Action(a)] for a in range(k)], [1.0 / k] * k, "random-policy")


def monte_carlo(ctx, rng, i):
    r = rng
    n, k = int(r.integers(1, 4)), int(r.integers(1, 3))
    gamma = float(r.choice([0.5, 1.0]))
    det = i % 3 == 0
    loops = not det
    mdp = Mdp(r, n, k, deterministic=det, loops=loops)
    with ctx.case("mc", f"n={n} k={k} det={det}", distinct=f"mc{i}"):
        random.seed(int(r.integers(1 << 30)))
        env, space = Env(mdp), ActionSpace(k)
        pi = policy_table(r, n, k, "greedy" if det else "soft")
        V, Q = mdp.values(pi, gamma)
        pol = TablePolicy(space, pi)
        cnt = 3 if det else 400
        for first in (True, False):
            vf = MonteCarloValueFunction(pol, env, gamma, first_visit=first, count_threshold=cnt, max_iteration=3 * cnt)
            for s in range(n):
                ctx.saw("mc_states")
                got = vf(State(s))
                if det:
                    ctx.close(got, V[s], f"monte-carlo-{'first' if first else 'every'}", rtol=1e-6, atol=1e-6)
                else:
                    # returns: geometric length (stop probability >= 0.4), |reward| <= M
                    ctx.expect(abs(got - V[s]) < 6.5 * spread(mdp, pi, gamma) / math.sqrt(cnt), f"monte-carlo-{'first' if first else 'every'}", f"{got} want {V[s]}")
        vf = EstimatedStateValueFunction(pol, env, gamma, num_episodes=cnt)
        for s in range(n):
            if det:
                ctx.close(vf(State(s)), V[s], "estimated-values", rtol=1e-6, atol=1e-6)
            else:
                ctx.expect(abs(vf(State(s)) - V[s]) < 6.5 * spread(mdp, pi, gamma) / math.sqrt(cnt), "estimated-values", f"{vf(State(s))} want {V[s]}")


def spread(mdp, pi, gamma):
    """upper bound on the standard deviation of the return: sqrt of the largest second moment (solved exactly)."""
    V, _ = mdp.values(pi, gamma)
    A, b = np.eye(mdp.n), np.zeros(mdp.n)
    Ve = np.append(V, 0.0)
    for s in range(mdp.n):
        for a in range(mdp.k):
            b[s] += pi[s, a] * (mdp.P[s, a] * (mdp.R[s, a] ** 2 + 2 * gamma * mdp.R[s, a] * Ve)).sum()
            A[s] -= gamma ** 2 * pi[s, a] * mdp.P[s, a, : mdp.n]
    return 3.0 * math.sqrt(max(np.linalg.solve(A, b).max(), 1e-6))


def dice(ctx, rng, i):
    r = rng
    n, k, m = int(r.integers(2, 5)), int(r.integers(2, 4)), int(r.integers(1, 5))
    gamma = float(r.choice([0.5, 0.9]))
    det, avg = bool(r.integers(2)), bool(r.integers(2))
    mdp = Mdp(r, n, k)
    b = policy_table(r, n, k, "soft")
    pi = policy_table(r, n + 1, k, "greedy" if not avg else "soft")
    init_greedy = policy_table(r, n + 1, k, "greedy")
    if avg:  # the initial action is sampled, so the first state's policy is kept deterministic
        pi[:] = np.where(np.arange(n + 1)[:, None] < 1, init_greedy, pi)
    traces = [mdp.run(r, b) for _ in range(m)]
    traces = [t for t in traces if t[0][0] == 0 or not avg]
    if not traces:
        return
    p = float(r.choice([1.5, 2.0]))
    with ctx.case("dice", f"det={det} avg={avg} p={p}", distinct=f"d{i}"):
        eye = np.eye(n + 1)
        pol = TablePolicy(ActionSpace(k), pi)

        class P(RLPolicy):
            def action_dist(self, state):
                return self._action_space.distribution([float(x) for x in pi[int(np.argmax(state.value))]])

        log = [[Transition(last_state=State(tuple(eye[s])), action=Action(a), action_prob=q, state=State(tuple(eye[t])), reward=rew) for s, a, q, t, rew in tr] for tr in traces]
        steps, bs = int(r.integers(3, 8)), int(r.integers(2, 7))
        calls = []
        est = NeuralDualDICE(state_dim=n + 1, action_dim=k, deterministic_env=det, average_next_v=avg, polynomial_degree=p, value_lr=0.01, zeta_lr=0.02,
                             hidden_dim=5, hidden_layers=1, training_samples=steps, batch_size=bs, reporting_frequency=2, loss_callback_fn=lambda a, b_, e: calls.append((a, b_)))
        V, Z = copy.deepcopy(est.v_net), copy.deepcopy(est.zeta_net)
        picks, real = [], np.random.choice

        def choice(*a, **kw):
            out = real(*a, **kw)
            picks.append(np.array(out))
            return out

        np.random.choice = choice
        try:
            np.random.seed(int(r.integers(1 << 30)))
            res = one(ctx, est.evaluate(RLEstimatorInput(gamma=gamma, log=log, target_policy=P(ActionSpace(k)))), "dice")
        finally:
            np.random.choice = real
        ctx.require(len(picks) == steps and all(x.shape == (bs,) for x in picks), "dice-batches", f"{len(picks)}")
        rows = [(tr[0][0], s, a, t, j) for tr in traces for j, (s, a, q, t, rew) in enumerate(tr)]

        def net(f, ss, aa):
            return f(torch.cat([torch.tensor(eye[ss], dtype=torch.float), torch.tensor(np.eye(k)[aa], dtype=torch.float)], 1)).reshape(-1)

        q_ = p / (p - 1)
        zo, vo = torch.optim.Adam(Z.parameters(), lr=0.02), torch.optim.Adam(V.parameters(), lr=0.01)

        def loss(ix, direct):
            s0, s, a, t, j = (np.array(c) for c in zip(*[rows[x] for x in ix]))
            if avg:
                nv = sum(torch.tensor(pi[t, c], dtype=torch.float) * net(V, t, np.full(len(t), c)) for c in range(k))
            else:
                nv = net(V, t, pi[t].argmax(1))
            delta = net(V, s, a) - gamma * nv
            init = (1 - gamma) * net(V, s0, pi[s0].argmax(1))
            if direct:
                u = delta.abs() ** p / p - init
            else:
                z = net(Z, s, a)
                u = delta * z - z.abs() ** q_ / q_ - init
            w = torch.tensor(gamma ** j.astype(float), dtype=torch.float)
            return (w * u).sum() / w.sum()

        for ix in picks:
            ctx.saw("dice_steps")
            l = -loss(ix, False)
            zo.zero_grad()
            l.backward()
            zo.step()
            l = loss(ix, det)
            vo.zero_grad()
            l.backward()
            vo.step()
        for name, mine, theirs in (("zeta", Z, est.zeta_net), ("value", V, est.v_net)):
            for x, y in zip(mine.parameters(), theirs.parameters()):
                ctx.close(y, x, f"dice-{name}-update", rtol=1e-3, atol=2e-4)
        want = np.mean([sum(gamma ** j * rew * float(net(est.zeta_net, [s], [a])) for j, (s, a, q, t, rew) in enumerate(tr)) for tr in traces])
        ctx.close(res.estimated_reward, want, "dice-estimate", rtol=1e-4, atol=1e-5)
        ctx.expect(len(calls) == (steps + 1) // 2, "dice-reports", f"{len(calls)} of {steps}")


def run(ctx):
    for name, f, q, t in [("logs", logs, 100, 2000), ("magic", magic, 60, 500), ("tabular", tabular, 25, 400), ("monte_carlo", monte_carlo, 6, 60), ("dice", dice, 25, 300)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
