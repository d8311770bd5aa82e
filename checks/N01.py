"""N01: native decision operators compute their documented function."""
import vf.quiet  # noqa
import collections
import itertools
import math

import numpy as np
from scipy import stats as st

from vf import native
from vf.native import constant
from vf.stats import binom_ok, multinomial_ok

RULE = ("Every native operator (compiled from the working tree with AddressSanitizer and UBSan) is created through the operator factory "
        "and run on random score maps, parameters and requests; outputs are compared with a reference written from the operator's "
        "contract: exactly for deterministic ones, by exact binomial tests for sampled ones, and along random request/feedback histories "
        "for the ones that learn (upper confidence bounds, propensity fitting). Non-trivial = at least two actions.")
REQUIRED = {"softmax": 40, "softmaxranker_runs": 4000, "epsilon_runs": 4000, "frechet_draws": 400, "ucb_decisions": 150, "ucb_explored": 30,
            "propensity_steps": 60, "expressions": 60, "counter_ops": 300, "scorings": 10, "inputs_passed": 10, "refused": 10}
ASSUMPTIONS = ["expressions are evaluated by a stand-in for exprtk that reads the arithmetic subset of its language",
               "sampling tests use a false-alarm bound of 1e-9 per test"]

REQUEST = {"plan_name": "p", "actions": {"names": []}}


def request(names=(), features=None, input=None):
    r = {"plan_name": "p", "request_id": "r", "actions": {"names": list(names)}}
    if features is not None:
        r["actions"]["features"] = features
    if input is not None:
        r["input"] = input
    return r


def score_map(rng, lo=1, hi=12, scale=None):
    n = rng.randint(lo, hi)
    scale = scale if scale is not None else 10 ** rng.uniform(-3, 4)
    pool = [rng.choice(["a", "action", "Z", "é", "x y", "q/", "7", ""]) + str(i) for i in range(n)]
    vals = [rng.choice([0.0, 1.0, rng.gauss(0, 1) * scale, -scale, scale]) if rng.random() < 0.4 else rng.gauss(0, 1) * scale for _ in pool]
    return dict(zip(pool, vals))


class Op:
    def __init__(self, s, service, op_name, inputs, number=itertools.count(), plan="plan", name=None):
        self.s, self.service, self.id = s, service, f"op{next(number)}"
        s.call("op", service=service, **{"as": self.id}, op_name=op_name, input_names=list(inputs), plan=plan, name=name or self.id)

    def run(self, inputs, req=None, times=1):
        tagged = {k: v if isinstance(v, dict) and len(v) == 1 and next(iter(v)).endswith("_value") else constant(v) for k, v in inputs.items()}
        return self.s.call("op", service=self.service, **{"as": self.id}, inputs=tagged, request=req or request(), times=times)

    def refuses(self, inputs, req=None):
        try:
            self.run(inputs, req)
        except native.Native.Refused:
            return True
        return False

    def feedback(self, inputs, output, feedback):
        self.s.call("opfeedback", service=self.service, **{"as": self.id}, inputs={k: constant(v) for k, v in inputs.items()},
                    output=output, feedback=feedback)


def scores(values):
    return {"map_double_value": values}


def softmax(values, temperature):
    m = max(values.values())
    e = {k: math.exp((v - m) / temperature) for k, v in values.items()}
    t = sum(e.values())
    return {k: v / t for k, v in e.items()}


def rank_probability(order, values, step):
    """Probability of drawing `order` when each place is drawn by `step` from what is left; and of each prefix."""
    left, p, prefixes = dict(values), 1.0, []
    for name in order:
        p *= step(left)[name]
        prefixes.append(p)
        del left[name]
    return p, prefixes


def greedy_step(epsilon):
    def step(left):
        best = max(left.values())
        tops = [k for k, v in left.items() if v == best]
        return {k: epsilon / len(left) + ((1 - epsilon) / len(tops) if v == best else 0) for k, v in left.items()}
    return step


def check_ranking(ctx, out, values, step, kind, ties):
    order = [a["name"] for a in out]
    ctx.require(sorted(order) == sorted(values), f"{kind}-ranks-every-action-once", f"ranked {order}, actions {sorted(values)}")
    _, prefixes = rank_probability(order, values, step)
    if not ties:
        got = [a["propensity"] for a in out]
        ctx.close(got, prefixes, f"{kind}-propensity", rtol=1e-7, atol=1e-12, msg=f"propensities {got}, probability of the places so far {prefixes}")
    return tuple(order)


def rankers(ctx, s):
    rng = ctx.sub("rankers")
    for i in range(ctx.n(24)):
        epsilon_kind = i % 2
        values = score_map(rng, 1, 4, scale=2.0) if i % 3 else score_map(rng, 1, 15)
        if epsilon_kind:
            par = ("epsilon", rng.choice([0.0, 1.0, 0.3, 0.05, rng.random()]))
            name, step, kind = "EpsilonGreedyRanker", greedy_step(par[1]), "epsilon"
        else:
            par = ("temperature", 10 ** rng.uniform(-1, 2))
            name, step, kind = "SoftmaxRanker", (lambda left, t=par[1]: softmax(left, t)), "softmaxranker"
        ties = len(set(values.values())) < len(values)
        with ctx.case(kind, (values, par), trivial=len(values) < 2):
            svc = s.fresh()
            op = Op(s, svc, name, ["values", par[0]])
            s.call("srand", service=svc, seed=rng.randrange(1 << 30))
            times = 1500 if len(values) <= 4 else 200
            outs = op.run({"values": scores(values), par[0]: par[1]}, times=times)
            ctx.saw(f"{kind}_runs", times)
            seen = collections.Counter()
            for out in outs:
                seen[check_ranking(ctx, out["ranked_action_list"], values, step, kind, ties and epsilon_kind)] += 1
            if epsilon_kind and ties:
                # which of several best actions is taken is not specified; the best group as a whole is
                best = max(values.values())
                k = sum(c for o, c in seen.items() if values[o[0]] == best)
                p = sum(v for a, v in step(values).items() if values[a] == best)
                ctx.expect(binom_ok(k, times, p), "epsilon-frequency", f"a best action came first {k} of {times} times, expected {p:.4f}")
            elif len(values) <= 4:
                orders = list(itertools.permutations(values))
                ok, why = multinomial_ok([seen[o] for o in orders], [rank_probability(o, values, step)[0] for o in orders])
                ctx.expect(ok, f"{kind}-frequency", f"orders are not drawn with their probability: {why}")
            else:
                first = collections.Counter(o[0] for o in seen.elements())
                names = list(values)
                ok, why = multinomial_ok([first[n] for n in names], [step(values)[n] for n in names])
                ctx.expect(ok, f"{kind}-frequency", f"first places are not drawn with their probability: {why}")
            # a seed makes the draw repeatable, and different seeds draw differently
            seeded = Op(s, svc, name, ["values", par[0], "seed"])
            draws = {}
            for seed in rng.sample(range(1000), 12):
                a, b = seeded.run({"values": scores(values), par[0]: par[1], "seed": seed}, times=2)
                c = Op(s, svc, name, ["values", par[0], "seed"]).run({"values": scores(values), par[0]: par[1], "seed": seed})[0]
                ctx.expect(a == b == c, f"{kind}-seed", f"seed {seed} drew {a}, then {b}, and {c} in another operator")
                check_ranking(ctx, a["ranked_action_list"], values, step, kind, ties and epsilon_kind)
                draws[tuple(x["name"] for x in a["ranked_action_list"])] = 1
            likely = max(rank_probability(o, values, step)[0] for o in seen)
            if likely ** 12 < 1e-9:
                ctx.expect(len(draws) > 1, f"{kind}-seed", "twelve seeds all drew the same ranking")
            s.call("close", service=svc)
    with ctx.case("rankers of nothing", "empty"):
        svc = s.fresh()
        for name, par in (("SoftmaxRanker", "temperature"), ("EpsilonGreedyRanker", "epsilon")):
            out = Op(s, svc, name, ["values", par]).run({"values": scores({}), par: 0.5})[0]
            ctx.expect(out == {"ranked_action_list": []}, "ranks-nothing", f"{name} of no actions is {out}")


def normalisers(ctx, s):
    rng = ctx.sub("softmax")
    for i in range(ctx.n(60)):
        values = score_map(rng, 1, 40)
        t = 10 ** rng.uniform(-3, 3)
        with ctx.case("softmax", (values, t), trivial=len(values) < 2):
            svc = s.fresh()
            out = Op(s, svc, "Softmax", ["values", "temperature"]).run({"values": scores(values), "temperature": t})[0]["map_double_value"]
            ctx.saw("softmax")
            want = softmax(values, t)
            ctx.require(set(out) == set(want), "softmax-covers-actions", f"{sorted(out)} for {sorted(want)}")
            ctx.close([out[k] for k in want], list(want.values()), "softmax", rtol=1e-8, atol=1e-12)
            ctx.close(sum(out.values()), 1.0, "softmax-normalised", rtol=1e-9)
    with ctx.case("softmax of nothing", "empty"):
        svc = s.fresh()
        out = Op(s, svc, "Softmax", ["values", "temperature"]).run({"values": scores({}), "temperature": 1.0})[0]
        ctx.expect(not out.get("map_double_value"), "softmax", f"softmax of nothing is {out}")
    rng = ctx.sub("frechet")
    for i in range(ctx.n(16)):
        values = {k: v if v else 1.0 for k, v in score_map(rng, 2, 10).items()}
        rho, gamma = 10 ** rng.uniform(-2, 2), rng.choice([1.0, 1.0 + rng.random() * 9, 2.0])
        with ctx.case("frechet", (values, rho, gamma)):
            svc = s.fresh()
            op = Op(s, svc, "Frechet", ["values", "rho", "gamma", "seed"])
            us = collections.defaultdict(list)
            seeds = rng.sample(range(10 ** 6), 60)
            for seed in seeds:
                a, b = op.run({"values": scores(values), "rho": rho, "gamma": gamma, "seed": seed}, times=2)
                ctx.expect(a == b, "frechet-seed", f"seed {seed} gave {a} and then {b}")
                out = a["map_double_value"]
                ctx.require(set(out) == set(values), "frechet-covers-actions", f"{sorted(out)} for {sorted(values)}")
                for k, v in values.items():
                    ratio = out[k] / (v * rho)
                    ctx.require(ratio > 0, "frechet-value", f"{k}: {v} became {out[k]}")
                    us[k].append(math.exp(-ratio ** -gamma))
                    ctx.saw("frechet_draws")
                twice = op.run({"values": scores(values), "rho": rho * 2, "gamma": gamma, "seed": seed})[0]["map_double_value"]
                ctx.close([twice[k] for k in values], [2 * out[k] for k in values], "frechet-scale", rtol=1e-9)
            allu = [u for v in us.values() for u in v]
            p = st.kstest(allu, "uniform").pvalue
            ctx.expect(p > 1e-9, "frechet-distribution", f"the perturbations are not Frechet distributed (p={p:.2g})")
            a, b = list(us.values())[:2]
            ctx.expect(sum(x == y for x, y in zip(a, b)) < 5, "frechet-independent", "two actions share their perturbation")
            noseed = Op(s, svc, "Frechet", ["values", "rho", "gamma"])
            out = noseed.run({"values": scores(values), "rho": rho, "gamma": gamma})[0]["map_double_value"]
            ctx.require(set(out) == set(values), "frechet-covers-actions", f"{sorted(out)} for {sorted(values)}")
            for bad in ({"rho": 0.0}, {"rho": -1.0}, {"gamma": 0.99}):
                ctx.expect(op.refuses({"values": scores(values), "rho": rho, "gamma": gamma, "seed": 1, **bad}), "frechet-refuses", f"{bad} was accepted")
                ctx.saw("refused")
    with ctx.case("frechet of nothing and of zero", "edge"):
        svc = s.fresh()
        op = Op(s, svc, "Frechet", ["values", "rho", "gamma", "seed"])
        out = op.run({"values": scores({}), "rho": 1.0, "gamma": 1.0, "seed": 3})[0]
        ctx.expect(not out.get("map_double_value"), "frechet-value", f"Frechet of nothing is {out}")
        out = op.run({"values": scores({"a": 0.0, "b": 0.0}), "rho": 1.0, "gamma": 1.0, "seed": 3})[0]["map_double_value"]
        ctx.expect(out == {"a": 0, "b": 0}, "frechet-value", f"Frechet of zeros is {out}")


def ucb(ctx, s):
    rng = ctx.sub("ucb")
    for i in range(ctx.n(14)):
        arms = [f"arm{j}" + rng.choice(["", "/ARM", " x"]) for j in range(rng.randint(1, 6))]
        batch = rng.choice([None, 1, 1, 2, 3, 5])
        window = rng.choice([None, None, 3, 8])
        from_features = rng.random() < 0.3
        with ctx.case("ucb", (arms, batch, window, from_features), trivial=len(arms) < 2):
            svc = s.fresh(**({} if window is None else {"window": window}))
            names = ["method"] + (["batch_size"] if batch else [])
            inputs = {"method": "UCB1", **({"batch_size": batch} if batch else {})}
            plan = rng.choice(["app/plan.json", "p"])
            op = Op(s, svc, "Ucb", names, plan=plan, name="ucb")
            other = Op(s, svc, "Ucb", names, plan=plan, name="ucb2")  # another bandit of the same plan learns apart
            means = {a: [] for a in arms}
            batches = {a: [] for a in arms}
            first = collections.Counter()
            for step in range(rng.randint(20, 40)):
                offered = arms if rng.random() < 0.7 else rng.sample(arms, rng.randint(1, len(arms)))
                req = request([], {a: {"f": 1.0} for a in offered}) if from_features else request(offered)
                out = op.run(inputs, req)[0]["ranked_action_list"]
                ctx.saw("ucb_decisions")
                ctx.require(len(out) == 1 and out[0]["name"] in offered, "ucb-picks-one-offered", f"picked {out} of {offered}")
                pick, prop = out[0]["name"], out[0]["propensity"]
                kept = {a: (m[-window:] if window else m) for a, m in means.items()}
                fresh = [a for a in offered if not kept[a]]
                if fresh:
                    ctx.saw("ucb_explored")
                    ctx.require(pick in fresh, "ucb-explores-first", f"picked {pick} although {fresh} were never completed")
                    ctx.close(prop, 1 / len(fresh), "ucb-propensity", rtol=1e-9)
                    first[pick] += 1
                else:
                    total = sum(len(kept[a]) for a in offered)
                    ub = {a: float(np.mean(kept[a])) + math.sqrt(2 * math.log(total) / len(kept[a])) for a in offered}
                    best = max(ub.values())
                    ctx.require(ub[pick] >= best - 1e-9 * max(1, abs(best)), "ucb-upper-bound", f"picked {pick} with bound {ub[pick]}, bounds {ub}")
                    ctx.close(prop, 1.0, "ucb-propensity", rtol=1e-9)
                reward = rng.choice([rng.gauss(0, 2), -1.0, 0.0, 5.0])
                op.feedback(inputs, {"ranked_action_list": out}, {"plan_name": "p", "request_id": "r", "actions": [], "computed_reward": reward})
                batches[pick].append(reward)
                size = batch or 1
                if len(batches[pick][-(window or 10 ** 9):]) % size == 0 and (window is None or len(batches[pick]) <= window):
                    means[pick].append(float(np.mean(batches[pick])))
                    batches[pick] = []
                elif window is not None and len(batches[pick]) >= window:
                    break  # a batch larger than the window never completes
            pick = other.run(inputs, request(arms))[0]["ranked_action_list"][0]
            ctx.close(pick["propensity"], 1 / len(arms), "ucb-operators-apart", rtol=1e-9, msg="another bandit of the plan knows what this one learnt")
            for a in arms:
                kept = means[a][-window:] if window else means[a]
                c = s.call("counter", service=svc, what="get", key="nothing/" + a)
                ctx.expect(c["samples"] == 0, "counter", f"a key never added to has {c}")
            if all(means.values()):
                ctx.expect(op.refuses({**inputs, "method": "Bayes"}, request(arms)), "ucb-refuses", "an unknown method was accepted")
                ctx.saw("refused")
            s.call("close", service=svc)
    with ctx.case("ucb exploration is uniform", "uniform"):
        svc = s.fresh()
        op = Op(s, svc, "Ucb", ["method"])
        names = ["a", "b", "c", "d"]
        seen = collections.Counter(o["ranked_action_list"][0]["name"] for o in op.run({"method": "UCB1"}, request(names), times=2000))
        ok, why = multinomial_ok([seen[n] for n in names], [0.25] * 4)
        ctx.expect(ok, "ucb-explores-uniformly", why)
    with ctx.case("ucb without actions", "empty"):
        ctx.expect(op.refuses({"method": "UCB1"}, request([])), "ucb-refuses", "a decision among no actions was made")
        ctx.expect(op.refuses({"method": 3}, request(names)), "ucb-refuses", "a number was accepted as method")
        ctx.saw("refused", 2)


def propensity(ctx, s):
    rng = ctx.sub("propensity")
    for i in range(ctx.n(8)):
        actions = [f"a{j}" for j in range(rng.randint(1, 6))]
        window = rng.choice([None, None, 4])
        targets = {a: rng.random() for a in actions if rng.random() < 0.8} or {actions[0]: 0.5}
        with ctx.case("propensity", (actions, targets, window)):
            svc = s.fresh(**({} if window is None else {"window": window}))
            op = Op(s, svc, "PropensityFit", ["input", "targets"], plan="app/x", name="fit")
            apart = Op(s, svc, "PropensityFit", ["input", "targets"], plan="app/x", name="fit2")
            shift, history = {}, collections.defaultdict(list)
            for step in range(rng.randint(6, 16)):
                given = {a: rng.random() for a in actions if rng.random() < 0.8}
                out = op.run({"input": scores(given), "targets": scores(targets)})[0].get("map_double_value") or {}
                want = {a: v + shift.get(a, 0.0) for a, v in given.items()}
                ctx.require(set(out) == set(want), "propensity-covers-actions", f"{sorted(out)} for {sorted(want)}")
                ctx.close([out[a] for a in want], list(want.values()), "propensity-shifts", rtol=1e-9, atol=1e-12)
                ctx.saw("propensity_steps")
                if rng.random() < 0.85:
                    # fed back later, as the service does, with the inputs and output of the decision
                    op.s.call("opfeedback", service=svc, **{"as": op.id}, inputs={"input": scores(given), "targets": scores(targets)},
                              output=scores(out), feedback={"plan_name": "p", "request_id": "r", "actions": []})
                    for a, v in out.items():
                        if a in targets:
                            history[a].append(v)
                    for a in targets:
                        h = history[a][-window:] if window else history[a]
                        if not h:
                            shift.setdefault(a, 0.0)
                        elif abs(np.mean(h) - targets[a]) < 1e-9:
                            break
                        else:
                            shift[a] = shift.get(a, 0.0) + (-0.01 if np.mean(h) > targets[a] else 0.01)
            got = apart.run({"input": scores({a: 0.5 for a in actions}), "targets": scores(targets)})[0]["map_double_value"]
            ctx.expect(all(v == 0.5 for v in got.values()), "propensity-operators-apart", f"an operator that never learnt shifts: {got}")
            s.call("close", service=svc)


def expressions(ctx, s):
    rng = ctx.sub("expression")

    def build(names, depth):
        if depth == 0 or rng.random() < 0.2:
            if names and rng.random() < 0.8:
                return rng.choice(names)
            return repr(round(rng.uniform(0.1, 9), 3))
        kind = rng.random()
        if kind < 0.75:
            return f"({build(names, depth - 1)} {rng.choice('+-*/')} {build(names, depth - 1)})"
        if kind < 0.85:
            return f"(-{build(names, depth - 1)})"
        return f"{rng.choice(['min', 'max'])}({build(names, depth - 1)}, {build(names, depth - 1)})"

    for i in range(ctx.n(70)):
        names = rng.sample(["score", "bias", "x1", "weight", "q"], rng.randint(1, 4))
        actions = [f"act {j}" for j in range(rng.randint(1, 6))]
        equation = build(names, rng.randint(0, 4))
        tables = {n: {a: round(rng.gauss(0, 3), 4) for a in actions} for n in names}
        want = {}
        for a in actions:
            try:
                want[a] = float(eval(equation, {"min": min, "max": max}, {n: tables[n][a] for n in names}))  # noqa: S307 (our own text)
            except ZeroDivisionError:
                want[a] = None
        with ctx.case("expression", (equation, tables)):
            svc = s.fresh()
            op = Op(s, svc, "Expression", ["equation"] + names)
            out = op.run({"equation": equation, **{n: scores(t) for n, t in tables.items()}})[0]["map_double_value"]
            ctx.saw("expressions")
            ctx.require(set(out) == set(actions), "expression-covers-actions", f"{sorted(out)} for {actions}")
            for a in actions:
                if want[a] is not None:
                    ctx.close(out[a], want[a], "expression-value", rtol=1e-9, atol=1e-12, msg=f"{equation} at {a} is {out[a]}, expected {want[a]}")
    for bad in ("", "score +", "score * nobody", "(score", "score score"):
        with ctx.case("expression that cannot be read", bad):
            svc = s.fresh()
            op = Op(s, svc, "Expression", ["equation", "score"])
            ctx.expect(op.refuses({"equation": bad, "score": scores({"a": 1.0})}), "expression-refuses", f"{bad!r} was evaluated")
            ctx.saw("refused")
    with ctx.case("expression with a value missing for one action", "missing"):
        svc = s.fresh()
        op = Op(s, svc, "Expression", ["equation", "x", "y"])
        ctx.expect(op.refuses({"equation": "x + y", "x": scores({"a": 1.0, "b": 2.0}), "y": scores({"a": 1.0})}), "expression-refuses",
                   "an equation was evaluated without one of its values")
        ctx.saw("refused")


def plumbing(ctx, s):
    rng = ctx.sub("plumbing")
    for i in range(ctx.n(16)):
        names = [f"n{j}" * rng.randint(1, 4) for j in range(rng.randint(1, 6))]
        model, snapshot = rng.randint(0, 2 ** 31 - 1), rng.randint(0, 2 ** 31 - 1)
        with ctx.case("scoring", (model, snapshot, names)):
            svc = s.fresh()
            op = Op(s, svc, "ActionValueScoring", ["model_id", "snapshot_id"])
            req = request(names) if i % 2 else request([], {n: {"f": 0.5} for n in names})
            out = op.run({"model_id": model, "snapshot_id": snapshot}, req)[0]["map_double_value"]
            ctx.saw("scorings")
            ctx.require(set(out) == set(names), "scoring-covers-actions", f"{sorted(out)} for {names}")
            ctx.close([out[n] for n in names], [model * 100.0 + snapshot + len(n) / 7 for n in names], "scoring-passes-model", rtol=1e-12)
    values = ["text", "", 3, -2 ** 62, 2.5, ["a", "b"], [1, 2], [0.5], {"a": "b"}, {"a": 1}, {"a": 1.5}, {"a": {"b": 0.25}},
              [{"name": "a", "propensity": 0.5}]]
    for v in values:
        with ctx.case("input", v):
            svc = s.fresh()
            out = Op(s, svc, "InputFromRequest", []).run({}, request(["a"], input=constant(v)))[0]
            ctx.saw("inputs_passed")
            ctx.expect(out == constant(v), "input-is-passed", f"{constant(v)} came out as {out}")
    # operators refuse requests that lack an input or give it another type, and the service lives on
    for name, inputs in (("Softmax", {"values": scores({"a": 1.0})}), ("Softmax", {"temperature": 1.0}), ("SoftmaxRanker", {"temperature": 1.0}),
                         ("EpsilonGreedyRanker", {"epsilon": "x", "values": scores({"a": 1.0})}), ("Frechet", {"values": scores({})}),
                         ("Expression", {"x": scores({"a": 1.0})}), ("PropensityFit", {}), ("ActionValueScoring", {"model_id": 1}), ("Ucb", {})):
        with ctx.case("missing input", (name, inputs)):
            svc = s.fresh()
            if name == "Ucb" or inputs is not None:
                ctx.expect(Op(s, svc, name, list(inputs)).refuses(inputs, request(["a"])), "refuses-missing-input", f"{name} ran on {inputs}")
                ctx.saw("refused")
    with ctx.case("unknown operator", "Nope"):
        svc = s.fresh()
        ctx.expect(s.refused("op", service=svc, **{"as": "zz"}, op_name="Nope"), "refuses-unknown-operator", "an operator nobody registered was made")
    # the counter that the learning operators stand on
    rng = ctx.sub("counter")
    for i in range(ctx.n(4)):
        window = rng.choice([1, 2, 5, 50])
        with ctx.case("counter", (i, window)):
            svc = s.fresh(window=window)
            model = collections.defaultdict(list)
            for _ in range(120):
                key, what = rng.choice(["k", "k/2", "é"]), rng.choices(["add", "get", "clear"], [8, 3, 1])[0]
                value = rng.gauss(0, 10)
                got = s.call("counter", service=svc, what=what, key=key, value=value)
                ctx.saw("counter_ops")
                if what == "add":
                    model[key] = (model[key] + [value])[-window:]
                if what == "clear":
                    model[key] = []
                want = [len(model[key]), float(np.mean(model[key])) if model[key] else 0.0, float(np.var(model[key])) if model[key] else 0.0]
                ctx.expect(None not in got.values(), "counter", f"after {what}: {got}")
                if None not in got.values():
                    ctx.close([got["samples"], got["mean"], got["variance"]], want, "counter", rtol=1e-7, atol=1e-9)
            s.call("close", service=svc)


def run(ctx):
    s = native.Session(native.build_all(["asan"], ".")["asan"])
    for name, f in (("rankers", rankers), ("normalisers", normalisers), ("ucb", ucb), ("propensity", propensity), ("expressions", expressions),
                    ("plumbing", plumbing)):
        with ctx.part(name):
            with ctx.case("part", name, trivial=True):
                f(ctx, s)
    with ctx.case("end", "the driver ends without a sanitizer report", trivial=True):
        s.close()
