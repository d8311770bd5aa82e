"""A01: discrete policies choose allowed actions with the stated probability."""
import vf.quiet  # noqa
import gym
import numpy as np
import torch
import reagent.types as rlt
import reagent.training  # noqa
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
from reagent.gym.policies.random_policies import ContinuousRandomPolicy, DiscreteRandomPolicy, MultiDiscreteRandomPolicy, make_random_policy_for_env
from reagent.gym.policies.samplers.discrete_sampler import EpsilonGreedyActionSampler, GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer, discrete_dqn_serving_scorer, parametric_dqn_scorer, parametric_dqn_serving_scorer
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer, slate_q_serving_scorer
from reagent.models.base import ModelBase
from reagent.parameters import NormalizationParameters, RLParameters
from reagent.prediction.predictor_wrapper import (
    DiscreteDqnPredictorUnwrapper, DiscreteDqnPredictorWrapper, DiscreteDqnWithPreprocessor,
    ParametricDqnPredictorUnwrapper, ParametricDqnPredictorWrapper, ParametricDqnWithPreprocessor,
)
from reagent.preprocessing.preprocessor import Preprocessor

from vf.stats import multinomial_ok

RULE = (
    "Random score matrices (ties, huge spreads, masked entries) go through each sampler: the declared distribution is "
    "recomputed in float64, the log probability of every action is compared (enumerated), masked actions must have "
    "probability zero, and large batches of one row are tallied against it with a 1e-9 multinomial bound. Scorers are run "
    "on networks that log the mode and inputs they saw; each returned score is compared with the network's own output for "
    "that state and action and masked entries with -inf. Predictor policies are built from real scripted serving modules "
    "and compared with the underlying network. Random policies are tallied against the uniform distribution over "
    "allowed actions."
)
REQUIRED = {"rows": 2000, "masked": 500, "logprobs": 4000, "tallies": 60, "ties": 30, "eps_updates": 60, "topk": 80,
            "dqn_scores": 400, "param_scores": 150, "slate_scores": 80, "served": 15, "random_policy": 40, "mode_checks": 60}
NEG = float("-inf")


def scores_of(rng, n, a, ties=False, mask=True):
    s = rng.normal(size=(n, a)) * rng.choice([0.01, 1.0, 5.0, 100.0])
    if ties:
        s = np.round(s)
    m = np.ones((n, a), bool)
    if mask:
        m = rng.random((n, a)) < 0.7
        m[np.arange(n), rng.integers(0, a, size=n)] = True
    s = s.astype(np.float32)
    # a masked action often had the highest score
    s2 = np.where(m, s, NEG).astype(np.float32)
    return torch.tensor(s2), m


def lsm(x):
    x = x.astype(np.float64)
    mx = x.max(1, keepdims=True)
    with np.errstate(divide="ignore"):
        return x - mx - np.log(np.exp(x - mx).sum(1, keepdims=True))


def eq_logp(ctx, got, want, mech, rt=1e-4):
    """-inf must be -inf (or so low that it can never be drawn); finite must be close."""
    got, want = got.detach().double().numpy(), np.asarray(want)
    ctx.require(got.shape == want.shape, mech + "-shape", f"{got.shape} != {want.shape}")
    imp = np.isneginf(want) | (want < -80)
    ctx.expect(bool((got[imp] < -15).all()), mech + "-impossible", f"impossible action has log prob {got[imp]}")
    ctx.close(got[~imp], want[~imp], mech, rtol=rt, atol=2e-4)


def one_hot_ok(ctx, act, n, a, mech):
    ctx.require(tuple(act.shape) == (n, a), mech, f"shape {tuple(act.shape)} want {(n, a)}")
    ctx.require(bool(((act == 0) | (act == 1)).all() and (act.sum(1) == 1).all()), mech, f"not one-hot: {act[:3]}")


def enum_logp(sampler, scores, a):
    n = scores.shape[0]
    cols = []
    for j in range(a):
        act = torch.zeros(n, a)
        act[:, j] = 1
        cols.append(sampler.log_prob(scores, act))
    return torch.stack(cols, 1)


def samplers(ctx, rng, i):
    n, a = int(rng.choice([1, 2, 7, 30])), int(rng.integers(1, 8))
    kind = ["softmax", "greedy", "eps"][i % 3]
    ties = rng.random() < 0.3
    sc, m = scores_of(rng, n, a, ties)
    x = sc.numpy()
    best = x.max(1, keepdims=True)
    isbest = x == best
    if kind == "softmax":
        T = float(rng.choice([0.05, 0.5, 1.0, 3.0, 50.0]))
        s, desc = SoftmaxActionSampler(temperature=T), f"T={T}"
        want = lsm(x.astype(np.float64) / T)
    elif kind == "greedy":
        s, desc, want = GreedyActionSampler(), "", None
    else:
        eps, dec, mn = float(rng.choice([0.0, 0.1, 0.5, 1.0])), float(rng.choice([1.0, 0.9, 0.5])), float(rng.choice([0.0, 0.05, 0.3]))
        s = EpsilonGreedyActionSampler(eps, dec, mn)
        e = eps
        for _ in range(int(rng.integers(0, 6))):
            s.update()
            e = max(e * dec, mn)
            ctx.saw("eps_updates")
            ctx.expect(abs(s.epsilon - e) < 1e-9, "epsilon-decay", f"epsilon {s.epsilon} want {e}")
        desc, want = f"eps={e}", None
    with ctx.case("sampler:" + kind, f"n={n} a={a} {desc}", distinct=f"{i}"):
        before = sc.clone()
        out = s.sample_action(sc)
        ctx.expect(torch.equal(before, sc), "scores-mutated", "sampling changed the scores")
        one_hot_ok(ctx, out.action, n, a, kind + "-onehot")
        idx = out.action.argmax(1).numpy()
        ctx.saw("rows", n)
        ctx.saw("masked", int((~m).sum()))
        ctx.expect(bool(m[np.arange(n), idx].all()), kind + "-impossible-taken", "an impossible action was taken")
        ctx.require(out.log_prob is not None and tuple(out.log_prob.shape) == (n,), kind + "-logp-shape", f"{None if out.log_prob is None else out.log_prob.shape}")
        lp = enum_logp(s, sc, a)
        ctx.saw("logprobs", n * a)
        if kind == "greedy":
            ctx.expect(bool(isbest[np.arange(n), idx].all()), "greedy-argmax", "not the highest score")
            want = np.where(np.eye(a, dtype=bool)[idx], 0.0, NEG)
            ctx.saw("ties", int((isbest.sum(1) > 1).sum()))
        if kind == "eps":
            # the greedy action among ties is the one the sampler's own distribution prefers
            g = np.where(isbest, lp.numpy(), -np.inf).argmax(1)
            pos = m.astype(float)
            with np.errstate(divide="ignore"):
                want = np.log((1 - e) * np.eye(a)[g] + e * pos / pos.sum(1, keepdims=True))
            ctx.saw("ties", int((isbest.sum(1) > 1).sum()))
        eq_logp(ctx, lp, want, kind + "-logprob")
        eq_logp(ctx, out.log_prob, want[np.arange(n), idx], kind + "-reported")
        ctx.expect(bool((want[np.arange(n), idx] > -60).all()), kind + "-zero-prob-taken", "took an action of zero probability")
        if kind == "softmax":
            p = np.exp(want)
            ent = -(p * np.where(p > 0, want, 0)).sum(1).mean()
            full = (np.isfinite(x)).all()
            if full:
                ctx.close(s.entropy(sc), ent, "entropy", rtol=1e-3, atol=1e-4)
        if i % 4 == 0:
            k = 3000
            row = sc[:1].repeat(k, 1)
            torch.manual_seed(int(rng.integers(0, 2 ** 31)))
            c = s.sample_action(row).action.sum(0).numpy()
            ctx.saw("tallies")
            ok, why = multinomial_ok(c.tolist(), np.exp(want[0]).tolist())
            ctx.expect(ok, kind + "-frequency", f"{why} counts {c.tolist()} probs {np.exp(want[0]).round(4).tolist()}")


def topk(ctx, rng, i):
    n, a = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    k = int(rng.integers(1, a + 1))
    with ctx.case("topk", f"n={n} a={a} k={k}", distinct=f"t{i}"):
        sc = torch.tensor(rng.normal(size=(n, a)).astype(np.float32))
        out = TopKSampler(k).sample_action(sc)
        ctx.saw("topk", n)
        ctx.require(tuple(out.action.shape) == (n, k), "topk-shape", f"{out.action.shape}")
        ctx.expect(np.array_equal(out.action.numpy(), np.argsort(-sc.numpy(), 1)[:, :k]), "topk", f"{out.action} of {sc}")
        ctx.expect(bool((out.log_prob == 0).all()) and out.log_prob.shape[0] == n and out.log_prob.numel() == n, "topk-logp", f"{out.log_prob}")


class Net(ModelBase):
    """Linear network (optionally with atoms / action input) recording the mode it ran in."""

    def __init__(self, rng, d, out, atoms=0, extra=0, drop=False):
        super().__init__()
        self.d, self.out, self.atoms, self.extra = d, out, atoms, extra
        self.lin = torch.nn.Linear(d + extra, out * max(atoms, 1))
        torch.nn.init.normal_(self.lin.weight)
        self.drop = torch.nn.Dropout(0.5 if drop else 0.0)
        self.modes = []

    def input_prototype(self):
        if self.extra:
            return rlt.FeatureData(torch.randn(1, self.d)), rlt.FeatureData(torch.randn(1, self.extra))
        return rlt.FeatureData(torch.randn(1, self.d))

    def forward(self, state, action=None):
        self.modes.append((self.training, torch.is_grad_enabled()))
        x = state.float_features
        if action is not None:
            x = torch.cat([x, action.float_features], 1)
        y = self.drop(self.lin(x))
        return y.view(-1, self.out, self.atoms) if self.atoms else y

    def np(self, x):
        y = x.astype(np.float64) @ self.lin.weight.detach().double().numpy().T + self.lin.bias.detach().double().numpy()
        return y.reshape(-1, self.out, self.atoms) if self.atoms else y


def modes(ctx, net, was):
    ctx.saw("mode_checks")
    ctx.expect(not any(t for t, _ in net.modes), "scored-in-training-mode", "network was in training mode while scoring")
    ctx.expect(not any(g for _, g in net.modes), "scored-with-grad", "autograd was on while scoring")
    ctx.expect(net.training, "left-in-eval", "network left in evaluation mode after scoring during training")
    net.modes.clear()


def mask_of(rng, a):
    r = rng.random()
    if r < 0.25:
        return None
    m = (rng.random(a) < 0.6)
    m[int(rng.integers(a))] = True
    return [m, m.astype(np.float32), m.astype(np.int64)][int(rng.integers(3))]


def scorers(ctx, rng, i):
    d, a = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    with ctx.case("scorer", f"d={d} a={a}", distinct=f"s{i}"):
        atoms = int(rng.choice([0, 0, 3]))
        net = Net(rng, d, a, atoms, drop=True).train()
        score = discrete_dqn_scorer(net)
        for _ in range(3):
            m = mask_of(rng, a)
            n = 1 if m is not None else int(rng.integers(1, 5))
            x = rng.normal(size=(n, d)).astype(np.float32)
            got = score(rlt.FeatureData(torch.tensor(x)), m) if m is not None else score(rlt.FeatureData(torch.tensor(x)))
            want = net.np(x)
            if atoms:
                want = want.mean(2)
            if m is not None:
                want = np.where(np.asarray(m).astype(bool)[None], want, NEG)
            ctx.saw("dqn_scores", want.size)
            ctx.close(got, want, "dqn-scores", rtol=1e-3, atol=1e-4)
            modes(ctx, net, True)
            # full composition
            act = Policy(score, GreedyActionSampler()).act(rlt.FeatureData(torch.tensor(x)), m)
            net.modes.clear()
            ctx.expect(np.array_equal(act.action.numpy().argmax(1), want.argmax(1)), "policy-greedy", f"{act.action} for {want}")
            ctx.expect(not act.action.requires_grad and not act.log_prob.requires_grad, "policy-detached", "")
        # parametric
        net = Net(rng, d, 1, extra=a, drop=True).train()
        n = int(rng.integers(1, 5))
        x = rng.normal(size=(n, d)).astype(np.float32)
        got = parametric_dqn_scorer(a, net)(rlt.FeatureData(torch.tensor(x)))
        want = np.concatenate([net.np(np.concatenate([x, np.tile(np.eye(a)[j], (n, 1))], 1)) for j in range(a)], 1)
        ctx.saw("param_scores", want.size)
        ctx.close(got, want, "parametric-scores", rtol=1e-3, atol=1e-4)
        modes(ctx, net, True)
        # slate
        c, dd = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        net = Net(rng, d, 1, extra=dd, drop=True).train()
        docs = rng.normal(size=(n, c, dd)).astype(np.float32)
        val = (rng.normal(size=(n, c)) * 2).astype(np.float32)
        st = rlt.FeatureData(torch.tensor(x), candidate_docs=rlt.DocList(torch.tensor(docs), torch.ones(n, c, dtype=torch.bool), torch.tensor(val)))
        got = slate_q_scorer(c, net)(st)
        want = np.exp(lsm(val)) * np.concatenate([net.np(np.concatenate([x, docs[:, j]], 1)) for j in range(c)], 1)
        ctx.saw("slate_scores", want.size)
        ctx.close(got, want, "slate-scores", rtol=1e-3, atol=1e-4)
        modes(ctx, net, True)


def prep(d, rng):
    ps = {k: NormalizationParameters(feature_type="CONTINUOUS", mean=float(rng.normal()), stddev=float(rng.uniform(0.5, 2))) for k in range(d)}
    mean = np.array([ps[k].mean for k in range(d)])
    sd = np.array([ps[k].stddev for k in range(d)])

    def ref(v, p):
        return np.where(p > 0, np.clip((v - mean) / sd, -6, 6), 0)
    return Preprocessor(ps, device=torch.device("cpu")), ref


def serving(ctx, rng, i):
    d, a = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    with ctx.case("serving", f"d={d} a={a}", distinct=f"v{i}"):
        net = Net(rng, d, a).eval()
        cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=str(k), feature_id=k) for k in range(d)])
        pre, ref = prep(d, rng)
        w = DiscreteDqnPredictorWrapper(DiscreteDqnWithPreprocessor(net, pre, cfg), [str(k) for k in range(a)], cfg)
        T = float(rng.choice([0.5, 2.0]))
        soft = rng.random() < 0.5
        rl = RLParameters(softmax_policy=soft, temperature=T) if rng.random() < 0.8 else None
        soft = soft and rl is not None
        pol = create_predictor_policy_from_model(w, rl_parameters=rl)
        for _ in range(3):
            v, p = rng.normal(size=(1, d)).astype(np.float32), (rng.random((1, d)) < 0.8)
            m = mask_of(rng, a)
            q = net.np(ref(v.astype(np.float64), p))
            if m is not None:
                q = np.where(np.asarray(m).astype(bool)[None], q, NEG)
            obs = (torch.tensor(v), torch.tensor(p))
            if rng.random() < 0.5:
                obs = rlt.ServingFeatureData(float_features_with_presence=obs, id_list_features={}, id_score_list_features={})
            out = pol.act(obs, m)
            one_hot_ok(ctx, out.action, 1, a, "served-onehot")
            j = int(out.action.argmax())
            ctx.saw("served")
            ctx.expect(np.isfinite(q[0, j]), "served-impossible", f"took masked action {j} with scores {q}")
            sc = discrete_dqn_serving_scorer(DiscreteDqnPredictorUnwrapper(w))(
                rlt.ServingFeatureData(float_features_with_presence=(torch.tensor(v), torch.tensor(p)), id_list_features={}, id_score_list_features={}), m)
            ctx.close(sc, q, "served-scores", rtol=1e-3, atol=1e-3)
            if soft:
                ctx.close(out.log_prob, [lsm(q / T)[0, j]], "served-softmax", rtol=1e-3, atol=1e-3)
            else:
                ctx.expect(j == int(q.argmax()), "served-greedy", f"{j} for {q}")
                ctx.expect(float(out.log_prob[0]) == 0.0, "served-greedy-logp", f"{out.log_prob}")
        # parametric serving, and the same module ranking a slate
        net = Net(rng, d, 1, extra=a).eval()
        pre, ref = prep(d, rng)
        apre = Preprocessor({k: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for k in range(a)}, device=torch.device("cpu"))
        pw = ParametricDqnPredictorWrapper(ParametricDqnWithPreprocessor(net, pre, apre))
        n = int(rng.integers(1, 4))
        v = rng.normal(size=(n, d)).astype(np.float32)
        s = ref(v.astype(np.float64), np.ones((n, d)))
        want = np.concatenate([net.np(np.concatenate([s, np.tile(np.eye(a)[j], (n, 1))], 1)) for j in range(a)], 1)
        got = parametric_dqn_serving_scorer(a, ParametricDqnPredictorUnwrapper(pw))((torch.tensor(v), torch.ones(n, d)))
        ctx.close(got, want, "served-parametric", rtol=1e-3, atol=1e-3)
        out = create_predictor_policy_from_model(pw, max_num_actions=a).act((torch.tensor(v), torch.ones(n, d)))
        ctx.expect(np.array_equal(out.action.numpy().argmax(1), want.argmax(1)), "served-parametric-act", f"{out.action} {want}")
        c = int(rng.integers(1, 6))
        k = int(rng.integers(1, c + 1))
        docs = rng.normal(size=(n, c, a)).astype(np.float32)
        val = rng.normal(size=(n, c)).astype(np.float32)
        st = rlt.FeatureData(torch.tensor(v), candidate_docs=rlt.DocList(torch.tensor(docs), torch.ones(n, c, dtype=torch.bool), torch.tensor(val)))
        want = np.exp(lsm(val)) * np.concatenate([net.np(np.concatenate([s, docs[:, j]], 1)) for j in range(c)], 1)
        got = slate_q_serving_scorer(c, ParametricDqnPredictorUnwrapper(pw))(st)
        ctx.close(got, want, "served-slate", rtol=1e-3, atol=1e-3)
        out = create_predictor_policy_from_model(pw, max_num_actions=c, slate_size=k).act(st)
        srt = np.sort(want, 1)
        if c == 1 or np.diff(srt, axis=1).min() > 1e-3:
            ctx.expect(np.array_equal(out.action.numpy(), np.argsort(-want, 1)[:, :k]), "served-slate-act", f"{out.action} {want}")


class Env:
    def __init__(self, space):
        self.action_space = space


def randoms(ctx, rng, i):
    a = int(rng.integers(1, 6))
    with ctx.case("random", f"a={a}", distinct=f"r{i}"):
        obs = rlt.FeatureData(torch.zeros(1, 3))
        pol = make_random_policy_for_env(Env(gym.spaces.Discrete(a)))
        ctx.require(isinstance(pol, DiscreteRandomPolicy), "random-kind", "")
        m = mask_of(rng, a)
        al = np.ones(a) if m is None else np.asarray(m).astype(float)
        c = np.zeros(a)
        for _ in range(200):
            o = pol.act(obs, m)
            one_hot_ok(ctx, o.action, 1, a, "random-onehot")
            j = int(o.action.argmax())
            c[j] += 1
            ctx.close(o.log_prob, [-np.log(al.sum())], "random-logp", rtol=1e-4, atol=1e-4)
        ctx.saw("random_policy")
        ok, why = multinomial_ok(c.astype(int).tolist(), (al / al.sum()).tolist())
        ctx.expect(ok, "random-frequency", f"{why} {c} allowed {al}")
        nv = [int(x) for x in rng.integers(1, 5, size=int(rng.integers(1, 4)))]
        pol = make_random_policy_for_env(Env(gym.spaces.MultiDiscrete(nv)))
        ctx.require(isinstance(pol, MultiDiscreteRandomPolicy), "random-kind", "")
        B = 600
        o = pol.act(rlt.FeatureData(torch.zeros(B, 3)))
        ctx.require(tuple(o.action.shape) == (B, len(nv)) and tuple(o.log_prob.shape) == (B, 1), "multi-shape", f"{o.action.shape} {o.log_prob.shape}")
        ctx.close(o.log_prob, np.full((B, 1), -np.log(nv).sum()), "multi-logp", rtol=1e-4, atol=1e-4)
        for j, k in enumerate(nv):
            cnt = np.bincount(o.action[:, j].numpy(), minlength=k)
            ctx.require(len(cnt) == k, "multi-range", f"{cnt} for {k}")
            ok, why = multinomial_ok(cnt.tolist(), [1 / k] * k)
            ctx.expect(ok, "multi-frequency", f"{why} {cnt}")
        d = int(rng.integers(1, 4))
        pol = make_random_policy_for_env(Env(gym.spaces.Box(low=-3.0, high=5.0, shape=(d,))))
        ctx.require(isinstance(pol, ContinuousRandomPolicy), "random-kind", "")
        o = pol.act(rlt.FeatureData(torch.zeros(B, 3)))
        # the training action range is (-1, 1)
        x = o.action.double().numpy()
        ctx.require(x.shape == (B, d), "cont-shape", f"{x.shape}")
        ctx.expect(bool((np.abs(x) <= 1).all()), "cont-range", f"{x.min()} {x.max()}")
        ctx.close(o.log_prob, np.full(B, -d * np.log(2)), "cont-logp", rtol=1e-4, atol=1e-4)
        for j in range(d):
            cnt = np.histogram(x[:, j], bins=8, range=(-1, 1))[0]
            ok, why = multinomial_ok(cnt.tolist(), [1 / 8] * 8)
            ctx.expect(ok, "cont-frequency", f"{why} {cnt}")


def run(ctx):
    for name, f, q, t in [("samplers", samplers, 300, 4000), ("topk", topk, 60, 400), ("scorers", scorers, 40, 400),
                          ("serving", serving, 12, 80), ("randoms", randoms, 50, 400)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
