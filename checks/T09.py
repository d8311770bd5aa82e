"""T09: the cross-entropy planner returns admissible, reward-ranked plans."""
import vf.quiet  # noqa
import itertools
import warnings

import numpy as np
import torch
import torch.nn as nn
import reagent.types as rlt
import reagent.training  # noqa  (import order matters in this package)
from reagent.models.cem_planner import CEMPlannerNetwork
from scipy import stats as st

from vf.stats import binom_ok, multinomial_ok

RULE = (
    "The planner is driven with recording stand-in world models whose dynamics, rewards, mixtures and terminal signals are "
    "known, so every simulated rollout is observed: admissible actions, chained states, stop at a predicted terminal, one "
    "ensemble member per rollout. Plan scores are recomputed from the recordings; the cross-entropy refit is replayed from "
    "the recorded candidates and scores, and every later candidate, the number of iterations and the returned action must "
    "agree with it; discrete planning must return the action with the best average score. Sampling of mixtures, terminals "
    "and ensemble members is tested by frequency."
)
REQUIRED = {"rollouts": 3000, "rollout_steps": 6000, "continuous_plans": 20, "discrete_plans": 25, "refits": 30, "stopped_early": 3, "terminals": 100, "scored": 200, "ensemble_draws": 1000, "mixture_draws": 500, "terminal_draws": 500, "small_population": 3, "several_trajectories": 15}
ASSUMPTIONS = ["action bounds strictly ordered in every dimension"]


class Wm(nn.Module):
    """A world model with known behaviour that remembers what it was asked."""

    def __init__(self, tag, log, s, a, term=None, noisy=False, mixtures=None, gs=2):
        super().__init__()
        self.tag, self.log, self.s, self.a, self.term, self.noisy, self.gs = tag, log, s, a, term, noisy, gs
        g = torch.Generator().manual_seed(tag)
        self.A = torch.randn(s, s, generator=g) * 0.5
        self.B = torch.randn(a, s, generator=g)
        self.r = torch.randn(s + a, generator=g)
        self.mix = mixtures

    def nxt(self, st, ac):
        return torch.tanh(st @ self.A + ac @ self.B) + 0.01 * (self.tag + 1)

    def rew(self, st, ac):
        return torch.cat((st, ac)) @ self.r - (ac ** 2).sum()

    def ends(self, st, ac):
        return self.term is not None and bool(self.nxt(st, ac)[0] > self.term)

    def forward(self, state, action):
        assert tuple(state.float_features.shape) == (1, 1, self.s) and tuple(action.float_features.shape) == (1, 1, self.a)
        stt, act = state.float_features[0, 0].clone(), action.float_features[0, 0].clone()
        self.log.append((self.tag, stt, act))
        mus = torch.stack([self.nxt(stt, act) + (0 if i == 0 else 100.0 * i) for i in range(self.gs)]).view(1, 1, self.gs, self.s)
        p = torch.tensor(self.mix if self.mix is not None else [1.0] + [0.0] * (self.gs - 1))
        sg = torch.full((1, 1, self.gs, self.s), 1e-12)
        nt = torch.full((1, 1), -1e4 if self.ends(stt, act) else 1e4)
        if self.noisy:
            nt = torch.full((1, 1), float(np.log(0.7 / 0.3)))
        return rlt.MemoryNetworkOutput(mus=mus, sigmas=sg, logpi=torch.log(p).view(1, 1, self.gs), reward=self.rew(stt, act).view(1, 1), not_terminal=nt, last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None)


def build(ctx, rng, k, discrete, **over):
    log = []
    s, a, h = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
    if discrete:
        a, h = rng.randint(1, 4), rng.randint(1, 3)
    term = rng.choice([None, 0.0, 0.5])
    nets = [Wm(i, log, s, a, term=term) for i in range(rng.choice([1, 1, 2, 3]))]
    lo = np.array([rng.uniform(-3, 1) for _ in range(a)])
    hi = lo + np.array([rng.uniform(0.05, 4) for _ in range(a)])
    pop = rng.choice([3, 9, 10, 20, 30])
    kw = dict(cem_num_iterations=rng.randint(1, 4), cem_population_size=pop, ensemble_population_size=rng.choice([1, 2, 3]), num_elites=rng.randint(1, min(pop, 6)), plan_horizon_length=h, state_dim=s, action_dim=a,
              discrete_action=discrete, terminal_effective=rng.random() < 0.7, gamma=rng.choice([1.0, 0.9, 0.5]), alpha=rng.choice([0.0, 0.25, 0.7]), epsilon=rng.choice([1e-6, 1e-6, 0.3]))
    if not discrete:
        kw.update(action_upper_bounds=hi, action_lower_bounds=lo)
    kw.update(over)
    return CEMPlannerNetwork(nets, **kw), kw, nets, log, lo, hi


def rollouts(ctx, log, nets, kw, init):
    """Cut the recording into rollouts, checking that states are chained and terminals obeyed."""
    out, h, i = [], kw["plan_horizon_length"], 0
    while i < len(log):
        tag, stt, acts, rew = log[i][0], init, [], 0.0
        wm = nets[tag]
        for j in range(h):
            ctx.require(i < len(log), "rollout_complete", f"recording ends at step {j} of {h}")
            t2, s2, a2 = log[i]
            ctx.saw("rollout_steps")
            ctx.require(t2 == tag, "one_model_per_rollout", f"model changed from {tag} to {t2} within a rollout")
            ctx.require(torch.allclose(s2, stt, atol=1e-5), "rollout_states_chained", f"step {j}: simulated from {s2.tolist()}, predicted {stt.tolist()}")
            acts.append(a2)
            rew += kw["gamma"] ** j * float(wm.rew(s2, a2))
            i += 1
            if kw["terminal_effective"] and wm.ends(s2, a2):
                ctx.saw("terminals")
                break
            stt = wm.nxt(s2, a2)
        ctx.saw("rollouts")
        out.append((tag, acts, rew))
    return out


def by_solution(ctx, rolls, kw):
    e = kw["ensemble_population_size"]
    ctx.require(len(rolls) % e == 0, "every_plan_simulated_the_declared_times", f"{len(rolls)} rollouts, {e} each")
    sols = []
    for i in range(0, len(rolls), e):
        g = rolls[i : i + e]
        longest = max((r[1] for r in g), key=len)
        ctx.require(all(all(torch.equal(x, y) for x, y in zip(r[1], longest)) for r in g), "every_plan_simulated_the_declared_times", "trajectories of one plan took different actions")
        sols.append((longest, float(np.mean([r[2] for r in g]))))
    return sols


def score_case(ctx, k):
    rng = ctx.sub(f"sc{k}")
    ctx.seed_all(f"sc{k}")
    pl, kw, nets, log, lo, hi = build(ctx, rng, k, False)
    init = torch.randn(1, kw["state_dim"])
    sol = torch.rand(kw["cem_population_size"], kw["plan_horizon_length"], kw["action_dim"])
    with ctx.case("scores", {**{x: kw[x] for x in kw if "bounds" not in x}, "nets": len(nets)}, distinct=k):
        ctx.saw("small_population", kw["cem_population_size"] < 10)
        ctx.saw("several_trajectories", kw["ensemble_population_size"] > 1)
        acc = pl.acc_rewards_of_all_solutions(rlt.FeatureData(init), sol)
        sols = by_solution(ctx, rollouts(ctx, log, nets, kw, init[0]), kw)
        ctx.require(len(sols) == kw["cem_population_size"], "every_plan_scored", f"{len(sols)}")
        for i, (acts, v) in enumerate(sols):
            ctx.saw("scored")
            ctx.require(all(torch.equal(x, sol[i, j]) for j, x in enumerate(acts)), "plans_simulated_in_order", "")
            ctx.close(float(acc[i]), v, "plan_score_is_mean_discounted_reward", rtol=1e-3, atol=1e-3)


def continuous(ctx, k):
    rng = ctx.sub(f"c{k}")
    ctx.seed_all(f"c{k}")
    pl, kw, nets, log, lo, hi = build(ctx, rng, k, False)
    init = torch.randn(1, kw["state_dim"])
    pop, h, a = kw["cem_population_size"], kw["plan_horizon_length"], kw["action_dim"]
    # refits need whole candidates: without terminals every rollout shows all its actions
    if rng.random() < 0.5:
        for n in nets:
            n.term = None
    with ctx.case("continuous", {**{x: kw[x] for x in kw if "bounds" not in x}, "nets": len(nets), "term": nets[0].term}, distinct=k):
        ctx.saw("small_population", pop < 10)
        ctx.saw("several_trajectories", kw["ensemble_population_size"] > 1)
        act = pl(rlt.FeatureData(init))
        ctx.saw("continuous_plans")
        sols = by_solution(ctx, rollouts(ctx, log, nets, kw, init[0]), kw)
        ctx.require(len(sols) % pop == 0, "whole_populations_scored", f"{len(sols)} plans for populations of {pop}")
        for acts, _ in sols:
            for x in acts:
                x = x.double().numpy()
                ctx.require(bool((x >= lo - 1e-5).all() and (x <= hi + 1e-5).all()), "candidates_within_bounds", f"{x} outside {lo}..{hi}")
        got = act.double().numpy().reshape(-1)
        ctx.require(got.shape == (a,), "continuous_plan_shape", f"{got.shape}")
        ctx.expect(bool((np.abs(got) <= 1 + 1e-5).all()), "planned_action_in_training_range", f"{got}")
        iters = len(sols) // pop
        ctx.require(1 <= iters <= kw["cem_num_iterations"], "iterations_bounded", f"{iters} of {kw['cem_num_iterations']}")
        if any(len(x[0]) < h for x in sols):
            return  # unobserved tail of a plan: the refit cannot be replayed
        L, H = np.tile(lo, h), np.tile(hi, h)
        mean, var = (L + H) / 2, (H - L) ** 2 / 16
        for it in range(iters):
            cvar = np.minimum(np.minimum(((mean - L) / 2) ** 2, ((H - mean) / 2) ** 2), var)
            X = np.array([np.concatenate([y.double().numpy() for y in x[0]]) for x in sols[it * pop : (it + 1) * pop]])
            sc = np.array([x[1] for x in sols[it * pop : (it + 1) * pop]])
            tol = 1e-4 + 1e-3 * np.sqrt(cvar)
            ctx.require(bool((np.abs(X - mean) <= 2 * np.sqrt(cvar) + tol).all()), "candidates_drawn_around_the_refit", f"iteration {it}: spread {np.abs(X-mean).max(0)} allowed {2*np.sqrt(cvar)}")
            if it == 0:
                ctx.saw("first_population", pop)
            order = np.argsort(sc, kind="stable")
            el = order[-kw["num_elites"] :]
            if kw["num_elites"] < pop and sc[order[-kw["num_elites"]]] - sc[order[-kw["num_elites"] - 1]] < 1e-4:
                return  # tie at the elite boundary
            mean = kw["alpha"] * mean + (1 - kw["alpha"]) * X[el].mean(0)
            var = kw["alpha"] * var + (1 - kw["alpha"]) * X[el].var(0)
            ctx.saw("refits")
            stop = var.max() <= kw["epsilon"]
            near = abs(var.max() - kw["epsilon"]) < 1e-3 * kw["epsilon"]
            if not near:
                if it + 1 < iters:
                    ctx.expect(not stop, "search_stops_when_converged", f"variance {var.max()} at iteration {it}, yet it continued")
                elif it + 1 < kw["cem_num_iterations"]:
                    ctx.saw("stopped_early")
                    ctx.expect(stop, "search_continues_until_converged", f"stopped after {it+1} of {kw['cem_num_iterations']} with variance {var.max()} > {kw['epsilon']}")
        want = (mean[:a] - lo) / (hi - lo) * 2 - 1
        ctx.expect(bool((np.abs(got - want) <= 1e-3 + 1e-4 / (hi - lo)).all()), "returns_first_action_of_the_refit_plan", f"got {got} want {want}")


def discrete(ctx, k):
    rng = ctx.sub(f"d{k}")
    ctx.seed_all(f"d{k}")
    pl, kw, nets, log, lo, hi = build(ctx, rng, k, True)
    init = torch.randn(1, kw["state_dim"])
    pop, h, a = kw["cem_population_size"], kw["plan_horizon_length"], kw["action_dim"]
    with ctx.case("discrete", {**kw, "nets": len(nets), "term": nets[0].term}, distinct=k), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.saw("small_population", pop < 10)
        ctx.saw("several_trajectories", kw["ensemble_population_size"] > 1)
        idx, onehot = pl(rlt.FeatureData(init))
        ctx.saw("discrete_plans")
        sols = by_solution(ctx, rollouts(ctx, log, nets, kw, init[0]), kw)
        ctx.require(len(sols) == pop, "every_plan_scored", f"{len(sols)} of {pop}")
        ctx.require(0 <= int(idx) < a, "planned_index_in_action_set", f"{idx}")
        ctx.expect(tuple(onehot.shape) == (a,) and float(onehot.sum()) == 1 and float(onehot[int(idx)]) == 1, "planned_one_hot_matches_index", f"{onehot} {idx}")
        sums, cnt = np.zeros(a), np.zeros(a)
        for acts, v in sols:
            for x in acts:
                ctx.require(float(x.sum()) == 1 and float(x.max()) == 1, "discrete_candidates_one_hot", f"{x}")
            f = int(acts[0].argmax())
            sums[f] += v
            cnt[f] += 1
        avg = np.where(cnt > 0, sums / np.maximum(cnt, 1), -np.inf)
        ctx.expect(cnt[int(idx)] > 0 and avg[int(idx)] >= avg.max() - 1e-3 * max(1, abs(avg.max())), "picks_best_average_first_action", f"averages {avg} picked {idx}")


def sampling(ctx, k):
    rng = ctx.sub(f"s{k}")
    ctx.seed_all(f"s{k}")
    pl, kw, nets, log, lo, hi = build(ctx, rng, k, False, terminal_effective=True, plan_horizon_length=1, ensemble_population_size=1, action_lower_bounds=None, action_upper_bounds=None, discrete_action=True)
    s, a = kw["state_dim"], kw["action_dim"]
    with ctx.case("sampling", dict(nets=len(nets)), distinct=k):
        mix = rng.choice([[0.2, 0.8], [0.5, 0.5], [1.0, 0.0]])
        wm = Wm(7, [], s, a, noisy=True, mixtures=mix)
        x, u = torch.randn(s), torch.randn(a)
        m = 600
        comp, ended = [0, 0], 0
        for _ in range(m):
            r, ns, nt, p = pl.sample_reward_next_state_terminal(rlt.FeatureData(x.view(1, 1, s)), rlt.FeatureData(u.view(1, 1, a)), wm)
            c = int(float(ns[0] - wm.nxt(x, u)[0]) > 50)
            ctx.require(torch.allclose(ns, wm.nxt(x, u) + 100.0 * c, atol=1e-4), "next_state_from_one_component", f"{ns}")
            comp[c] += 1
            ended += 1 - nt
            ctx.expect(abs(float(r) - float(wm.rew(x, u))) < 1e-4, "sampled_reward_is_predicted", "")
        ctx.saw("mixture_draws", m)
        ctx.saw("terminal_draws", m)
        ok, why = multinomial_ok(comp, mix)
        ctx.expect(ok, "mixture_components_sampled_by_weight", why)
        ctx.expect(binom_ok(ended, m, 0.3), "terminal_sampled_by_probability", f"{ended} of {m}, probability 0.3")
        # ensemble members drawn uniformly
        pop = 900
        pl, kw, nets, log, lo, hi = build(ctx, rng, k, True, cem_population_size=pop, ensemble_population_size=1, plan_horizon_length=1)
        pl(rlt.FeatureData(torch.randn(1, kw["state_dim"])))
        cnt = [sum(1 for r in log if r[0] == n.tag) for n in nets]
        ctx.saw("ensemble_draws", sum(cnt))
        ok, why = multinomial_ok(cnt, [1 / len(nets)] * len(nets))
        ctx.expect(ok, "ensemble_members_drawn_uniformly", why)
        first = np.bincount([int(r[2].argmax()) for r in log], minlength=kw["action_dim"])
        ok, why = multinomial_ok(first.tolist(), [1 / kw["action_dim"]] * kw["action_dim"])
        ctx.expect(ok, "random_plans_uniform", why)


def run(ctx):
    for name, f, q in (("scores", score_case, 25), ("continuous", continuous, 45), ("discrete", discrete, 40), ("sampling", sampling, 5)):
        with ctx.part(name):
            for k in range(ctx.n(q, q * 8)):
                f(ctx, k)
