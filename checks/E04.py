"""E04: counterfactual policy evaluation equals its definition."""
import vf.quiet  # noqa
import math
import random

import numpy as np
import scipy.optimize
import scipy.stats
import torch
from reagent.core.observers import ValueListObserver
from reagent.evaluation.cpe import CpeEstimate, CpeEstimateSet, bootstrapped_std_error_of_mean
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator, DoublyRobustHP
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.evaluator import Evaluator, get_metrics_to_score
from reagent.evaluation.ope_adapter import OPEstimatorAdapter, OPEvaluator, SequentialOPEstimatorAdapter
from reagent.evaluation.sequential_doubly_robust_estimator import SequentialDoublyRobustEstimator
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator
from reagent.ope.estimators.contextual_bandits_estimators import DMEstimator, DoublyRobustEstimator as OPEDR, IPSEstimator
from reagent.ope.estimators.sequential_estimators import DoublyRobustEstimator as SeqDR, IPSEstimator as SeqIPS
from reagent.tensorboardX import SummaryWriterContext

RULE = (
    "Random evaluation pages with 1-40 episodes of 1-30 steps, 1-5 actions and 0-3 metrics; each score is recomputed row by row in "
    "NumPy from the page: direct, inverse-propensity and doubly-robust means, the doubly-robust recursion per episode, the weighted "
    "estimate from per-step weights in which ended episodes keep their final weight, and MAGIC's mixture, whose error objective must "
    "be minimal over the simplex. Raw and normalised scores must differ by the logged score (zero when that is not positive), standard "
    "errors are checked against sampling theory, metric scores against the same references with the metric as reward, and the adapter "
    "to the off-policy library against the direct implementations. On-policy pages with zero model values must return the logged score."
)
REQUIRED = {"pages": 30, "ragged_pages": 15, "scores": 300, "magic": 25, "magic_improved": 2, "on_policy": 5, "metric_scores": 20, "adapter": 8, "std_errors": 40, "details": 20, "small_pages": 3, "tensorboard": 20}


def make(r, small=False, on_policy=False):
    n = int(r.integers(1, 4)) if small else int(r.choice([r.integers(4, 12), r.integers(4, 12), r.integers(12, 41)]))
    long = r.random() < 0.12 and not small
    lens = [int(r.integers(1, 31 if long else 6)) for _ in range(n)]
    if r.random() < 0.25:
        lens = [lens[0]] * n
    if sum(lens) > 250:
        lens = lens[:8] if len(lens) > 8 else lens
        n = len(lens)
    N, A, M = sum(lens), int(r.integers(1, 6)), int(r.choice([0, 0, 1, 2, 3]))
    # adjacent episodes must differ; ids are arbitrary otherwise
    ids = r.permutation(1000)[:n]
    a = r.integers(0, A, size=N)
    mask = np.eye(A)[a]
    behav = r.random((N, A)) + 0.3
    behav /= behav.sum(1, keepdims=True)
    target = behav.copy() if on_policy else r.random((N, A)) ** 2 + 0.02
    if not on_policy and r.random() < 0.3:
        target = np.eye(A)[r.integers(0, A, size=N)]
    target = target / target.sum(1, keepdims=True)
    scale = float(r.choice([1.0, 5.0]))
    shift = float(r.choice([0.0, 0.0, 1.0, 3.0, -2.0]))
    f = lambda *s: np.float32(r.normal(size=s) * scale + shift)  # noqa
    Q = np.zeros((N, A), np.float32) if on_policy else f(N, A)
    mr = f(N, A)
    mm, mq = f(N, A * M), f(N, A * M)
    seqs = []
    for l in lens:
        s, t = int(r.integers(0, 3)), []
        for _ in range(l):
            t.append(s)
            s += int(r.integers(1, 4)) if r.random() < 0.2 else 1
        seqs += t
    t = lambda x: torch.tensor(np.asarray(x), dtype=torch.float)  # noqa
    page = EvaluationDataPage(
        mdp_id=torch.tensor(np.repeat(ids, lens)).reshape(-1, 1), sequence_number=torch.tensor(seqs).reshape(-1, 1),
        logged_propensities=t(behav[np.arange(N), a]).reshape(-1, 1), logged_rewards=t(f(N, 1)), action_mask=t(mask), model_propensities=t(target),
        model_rewards=t(mr), model_rewards_for_logged_action=t((mr * mask).sum(1, keepdims=True)), model_values=t(Q), model_values_for_logged_action=t((Q * mask).sum(1, keepdims=True)),
        optimal_q_values=None if r.random() < 0.2 else t(f(N, A)), eval_action_idxs=None if r.random() < 0.2 else torch.tensor(r.integers(0, A, size=(N, 1))),
        logged_metrics=t(f(N, M)) if M else None, model_metrics=t(mm) if M else None, model_metrics_values=t(mq) if M else None,
        model_metrics_for_logged_action=t(np.stack([(mm[:, j * A:(j + 1) * A] * mask).sum(1) for j in range(M)], 1)) if M else None,
        logged_values=t(f(N, 1)), logged_metrics_values=t(f(N, M)) if M else None)
    return page, lens, A, M


class Ref:
    """plain NumPy references over the columns of one page"""

    def __init__(self, page, lens, gamma, metric=None):
        d = lambda x: x.double().numpy()  # noqa
        A = page.action_mask.shape[1]
        self.lens, self.gamma = lens, gamma
        self.mask, self.pi = d(page.action_mask), d(page.model_propensities)
        self.p = d(page.logged_propensities)[:, 0]
        if metric is None:
            self.r, self.mr, self.q = d(page.logged_rewards)[:, 0], d(page.model_rewards), d(page.model_values)
        else:
            s = slice(metric * A, (metric + 1) * A)
            self.r, self.mr, self.q = d(page.logged_metrics)[:, metric], d(page.model_metrics)[:, s], d(page.model_metrics_values)[:, s]
        self.N = len(self.r)
        self.w = (self.pi * self.mask).sum(1) / self.p
        self.qa, self.v, self.mra = (self.q * self.mask).sum(1), (self.q * self.pi).sum(1), (self.mr * self.mask).sum(1)
        self.eps = np.split(np.arange(self.N), np.cumsum(lens)[:-1])

    def rows(self):
        dm = (self.pi * self.mr).sum(1)
        return {"dm": dm, "ips": self.w * self.r, "dr": self.w * (self.r - self.mra) + dm}

    def episode_returns(self):
        return np.array([sum(self.gamma ** k * self.r[i] for k, i in enumerate(e)) for e in self.eps])

    def sdr(self):
        out = []
        for e in self.eps:
            x = 0.0
            for i in e[::-1]:
                x = self.v[i] + self.w[i] * (self.r[i] + self.gamma * x - self.qa[i])
            out.append(x)
        return np.array(out)

    def grid(self, x, fill, sub):
        T = max(self.lens)
        out = np.full((len(sub), T), float(fill))
        for j, k in enumerate(sub):
            out[j, : self.lens[k]] = x[self.eps[k]]
        return out

    def j_returns(self, normalize, js, sub=None, dead=1.0):
        # dead: what a step at which all importance weights are zero counts (the library's sequential estimators count it as zero)
        sub = range(len(self.lens)) if sub is None else sub
        rho = self.grid(self.w, 1.0, sub).cumprod(1)
        n, T = rho.shape
        if normalize:
            s = rho.sum(0)
            zero = s < (1e-15 if dead == 0 else 1e-300)
            ws = np.where(zero, dead, rho) / np.where(zero, n, s)
        else:
            ws = rho / n
        last = np.hstack([np.full((n, 1), 1.0 / n), ws[:, :-1]])
        R, Qa, V = (self.grid(x, 0.0, sub) for x in (self.r, self.qa, self.v))
        d = self.gamma ** np.arange(T).astype(float)
        out = []
        for j in js:
            j = int(min(j, T - 1))
            k = slice(0, j + 1)
            g = (d[k] * (ws[:, k] * (R[:, k] - Qa[:, k]) + last[:, k] * V[:, k])).sum(1)
            if j < T - 1:
                g = g + d[j + 1] * last[:, j + 1] * V[:, j + 1]
            out.append(g)
        return np.array(out)

    def magnitude(self, normalize):
        n = len(self.lens)
        rho = self.grid(self.w, 1.0, range(n)).cumprod(1)
        ws = rho / np.maximum(rho.sum(0) if normalize else n, 1e-12)
        x = self.grid(np.abs(self.r) + np.abs(self.qa) + np.abs(self.v), 0.0, range(n))
        return float((ws * x).sum() + np.abs(self.v).sum() / n)


def score(ctx, est, raw, logged, mech, tol):
    ctx.saw("scores")
    ctx.close(est.raw, raw, mech + "-raw", rtol=2e-4, atol=tol)
    if logged > 2e-4:
        ctx.close(est.normalized, est.raw / logged, mech + "-normalized", rtol=2e-3 * max(1.0, 0.1 / logged), atol=1e-6 + tol)
        ctx.close(est.normalized_std_error, est.raw_std_error / logged, mech + "-normalized-error", rtol=2e-3 * max(1.0, 0.1 / logged), atol=1e-6 + tol)
    elif logged < -1e-4:
        ctx.expect(est.normalized == 0.0 and est.normalized_std_error == 0.0, mech + "-normalized-zero", f"{est} logged {logged}")


def std_error(ctx, got, data, mech, pct=0.25):
    if len(data) < 8:
        return
    ctx.saw("std_errors")
    want = float(np.std(data)) / math.sqrt(int(pct * len(data)))
    # the error of an estimated standard deviation from 1000 resampled means (heavy tails allowed for)
    kurt = float(((data - data.mean()) ** 4).mean() / max(data.var() ** 2, 1e-30))
    rel = 7 * math.sqrt((2 + max(kurt - 3, 0) / int(pct * len(data))) / 4000)
    ctx.expect(abs(got - want) <= rel * want + 1e-5, mech + "-std-error", f"{got} want {want} +- {rel * want}")


def tol_rows(x):
    return 1e-5 * (1 + float(np.abs(x).mean()) * 5)


def magic_oracle(ctx, est, ref, num, normalize, mech):
    n, T = len(ref.lens), max(ref.lens)
    if n < 2 or num == 1:
        ctx.close(est.raw, ref.j_returns(normalize, [T])[0].sum(), mech + "-single", rtol=2e-4, atol=1e-5 + 1e-5 * ref.magnitude(normalize))
        return
    js = [T, -1] + ([i * (T // (num - 1)) for i in range(1, num - 1)] if num > 2 else [])
    js = sorted(set(min(j, T - 1) for j in js))
    G = ref.j_returns(normalize, js)
    g = G.sum(1)
    tol = 1e-4 + 1e-5 * ref.magnitude(normalize)
    ctx.saw("magic")
    ctx.expect(g.min() - tol <= est.raw <= g.max() + tol, mech + "-within-step-returns", f"{est.raw} {g}")
    k = int(min(n / 2, 25))
    if k < 2 or g.max() - g.min() < 0.05:
        return
    subs = [range(int(i * n / k), int((i + 1) * n / k)) for i in range(k)]
    inf = [ref.j_returns(normalize, [T], s)[0].sum() for s in subs]
    h = scipy.stats.sem(inf) * scipy.stats.t.ppf(0.95, k - 1)
    m = np.mean(inf)
    b = np.where(g < m - h, m - h - g, np.where(g > m + h, g - m - h, 0.0))
    E = n * np.atleast_2d(np.cov(G)) + np.outer(b, b)
    f = lambda x: float(x @ E @ x) / max(np.abs(E).max(), 1e-12)  # noqa
    J = len(js)

    def best(extra):
        out = math.inf  # the error is convex: one start finds its minimum, unless the solver gives up
        for x0 in [np.full(J, 1.0 / J)] + list(np.eye(J))[:3]:
            if math.isfinite(out):
                break
            res = scipy.optimize.minimize(f, x0, bounds=[(0, 1)] * J, constraints=[{"type": "eq", "fun": lambda x: x.sum() - 1}] + extra, options={"ftol": 1e-10, "maxiter": 300})
            if abs(res.x.sum() - 1) < 1e-5 and all(abs(c["fun"](res.x)) < 1e-3 * (1 + np.abs(g).max()) for c in extra):
                out = min(out, f(res.x))
        return out

    top, got = best([]), best([{"type": "eq", "fun": lambda x: x @ g - np.clip(est.raw, g.min(), g.max())}])
    flat = f(np.full(J, 1.0 / J))
    if not math.isfinite(got) or not math.isfinite(top):
        return
    slack = 0.05 * (flat - top) + 0.02 * abs(top) + 2e-3 + 1e-5 / max(np.abs(E).max(), 1e-6)
    ctx.expect(got <= top + slack, mech + "-minimal-error", f"error {got} at {est.raw}, least {top}, step returns {g}")
    if flat > top + 4 * slack:
        ctx.saw("magic_improved")


def sequential(ctx, ref, page, gamma, mech="", sdr=None, wdr=None, magic=None):
    rets = ref.episode_returns()
    logged = float(rets.mean())
    m = ref.magnitude(False)
    s = sdr or SequentialDoublyRobustEstimator(gamma).estimate(page)
    want = ref.sdr()
    score(ctx, s, want.mean(), logged, mech + "sdr", 1e-5 + 1e-5 * m)
    std_error(ctx, s.raw_std_error, want, mech + "sdr")
    w = wdr or WeightedSequentialDoublyRobustEstimator(gamma).estimate(page, num_j_steps=1, whether_self_normalize_importance_weights=True)
    score(ctx, w, ref.j_returns(True, [10 ** 6])[0].sum(), logged, mech + "wdr", 1e-5 + 1e-5 * ref.magnitude(True))
    if magic is not None:
        score(ctx, magic, magic.raw, logged, mech + "magic", 1e-5)
        magic_oracle(ctx, magic, ref, 25, True, mech + "magic")
    return logged


def bandit(ctx, ref, ests, mech=""):
    rows = ref.rows()
    logged = float(ref.r.mean())
    for e, k in zip(ests, ("dm", "ips", "dr")):
        score(ctx, e, rows[k].mean(), logged, mech + k, tol_rows(rows[k]))
        std_error(ctx, e.raw_std_error, rows[k], mech + k)


def pages(ctx, r, i):
    small, onp = i % 8 == 7, i % 5 == 4
    page, lens, A, M = make(r, small, onp)
    gamma = float(r.choice([0.0, 0.5, 0.9, 1.0]))
    with ctx.case("page", f"lens={lens} A={A} M={M} gamma={gamma} small={small} on={onp}", distinct=f"p{i}"):
        ctx.saw("pages")
        ctx.saw("ragged_pages", len(set(lens)) > 1)
        ctx.saw("small_pages", small)
        ref = Ref(page, lens, gamma)
        bandit(ctx, ref, DoublyRobustEstimator().estimate(page))
        sequential(ctx, ref, page, gamma)
        est = WeightedSequentialDoublyRobustEstimator(gamma)
        e = est.estimate(page, num_j_steps=1, whether_self_normalize_importance_weights=False)
        ctx.close(e.raw, ref.j_returns(False, [10 ** 6])[0].sum(), "unnormalised-dr", rtol=2e-4, atol=1e-5 + 1e-5 * ref.magnitude(False))
        ctx.close(e.raw, ref.sdr().mean(), "unnormalised-is-recursive", rtol=2e-4, atol=1e-5 + 1e-5 * ref.magnitude(False))
        if onp:
            ctx.saw("on_policy")
            logged = ref.episode_returns().mean()
            for norm in (True, False):
                e = est.estimate(page, num_j_steps=1, whether_self_normalize_importance_weights=norm)
                ctx.close(e.raw, logged, "on-policy-score", rtol=2e-4, atol=1e-4)
            ctx.close(SequentialDoublyRobustEstimator(gamma).estimate(page).raw, logged, "on-policy-score", rtol=2e-4, atol=1e-4)
        for num in (2, 25):
            if num == 2 and not 2 <= len(lens) < 12:
                continue
            magic_oracle(ctx, est.estimate(page, num_j_steps=num, whether_self_normalize_importance_weights=True), ref, num, True, f"magic{num}")
        out = est.transform_to_equal_length_trajectories(page.mdp_id, *(x.numpy() for x in (page.action_mask, page.logged_rewards.flatten(), page.logged_propensities.flatten(), page.model_propensities, page.model_values)))
        for x, y in zip(out, (page.action_mask, page.logged_rewards.flatten(), page.logged_propensities.flatten(), page.model_propensities, page.model_values)):
            ctx.require(x.shape[:2] == (len(lens), max(lens)), "trajectory-shape", f"{x.shape}")
            for j, e in enumerate(ref.eps):
                ctx.close(x[j, : lens[j]], y[e].numpy(), "trajectory-cut")
        # evaluator: everything at once, with metrics
        names = [f"act{j}" for j in range(A)]
        metrics = [f"m{j}" for j in range(M)] or None
        ev = Evaluator(names, gamma, None, metrics_to_score=metrics)
        seen = ValueListObserver("cpe_details")
        ev.add_observer(seen)
        det = ev.evaluate_post_training(page)
        ctx.expect(len(seen.values) == 1 and seen.values[0] is det, "details-reported-once", f"{len(seen.values)}")
        check_set(ctx, det.reward_estimates, ref, page, gamma, "reward-")
        ctx.expect(sorted(det.metric_estimates) == sorted(metrics or []), "metric-names", f"{list(det.metric_estimates)}")
        for j in range(M):
            ctx.saw("metric_scores")
            check_set(ctx, det.metric_estimates[f"m{j}"], Ref(page, lens, gamma, metric=j), None, gamma, "metric-")
        ctx.saw("details")
        q = page.optimal_q_values
        if q is None:
            ctx.expect(det.q_value_means is None and det.q_value_stds is None, "no-q-values", "")
        else:
            ctx.close([det.q_value_means[n] for n in names], q.double().mean(0), "q-means", rtol=1e-4, atol=1e-4)
            if len(q) > 1:
                ctx.close([det.q_value_stds[n] for n in names], q.double().std(0), "q-stds", rtol=1e-3, atol=1e-4)
        if page.eval_action_idxs is None:
            ctx.expect(det.action_distribution is None, "no-distribution", "")
        else:
            ctx.close([det.action_distribution[n] for n in names], np.bincount(page.eval_action_idxs.flatten().numpy(), minlength=A) / len(page.eval_action_idxs), "action-distribution", rtol=1e-6)
        ctx.close(det.mc_loss, ((page.logged_values - page.model_values_for_logged_action).double() ** 2).mean(), "mc-loss", rtol=1e-4, atol=1e-5)
        board(ctx, det, metrics or [])


def check_set(ctx, s, ref, page, gamma, mech):
    ctx.require(all(x is not None for x in s[:6]), mech + "missing", f"{s}")
    bandit(ctx, ref, (s.direct_method, s.inverse_propensity, s.doubly_robust), mech)
    sequential(ctx, ref, page, gamma, mech, sdr=s.sequential_doubly_robust, wdr=s.weighted_doubly_robust, magic=s.magic)


def board(ctx, det, metrics):
    got, real = [], SummaryWriterContext.add_scalar
    SummaryWriterContext.add_scalar = lambda *a, **k: got.append(a)
    try:
        det.log_to_tensorboard()
    finally:
        SummaryWriterContext.add_scalar = real
    want = []
    for name, s in [("Reward", det.reward_estimates)] + [(m, det.metric_estimates[m]) for m in metrics]:
        for label, e in (("Direct_Method_Reward", s.direct_method), ("IPS_Reward", s.inverse_propensity), ("Doubly_Robust_Reward", s.doubly_robust),
                         ("Sequential_Doubly_Robust", s.sequential_doubly_robust), ("Weighted_Sequential_Doubly_Robust", s.weighted_doubly_robust), ("MAGIC", s.magic)):
            want.append((f"CPE/{name}/{label}", 0.0 if math.isnan(e.normalized) else e.normalized))
    ctx.saw("tensorboard")
    ctx.expect(sorted(got) == sorted(want), "tensorboard", f"{got} want {want}")
    det.log()


def adapter(ctx, r, i):
    page, lens, A, M = make(r, on_policy=i % 4 == 3)
    gamma = float(r.choice([0.5, 0.9, 1.0]))
    if sum(lens) > 120:
        return
    with ctx.case("adapter", f"lens={lens} A={A} gamma={gamma}", distinct=f"a{i}"):
        ctx.saw("adapter")
        ref = Ref(page, lens, gamma)
        rows, logged = ref.rows(), float(ref.r.mean())
        for k, e in (("dm", DMEstimator()), ("ips", IPSEstimator()), ("dr", OPEDR())):
            score(ctx, OPEstimatorAdapter(e).estimate(page), rows[k].mean(), logged, "adapter-" + k, 3 * tol_rows(rows[k]))
        rets = float(ref.episode_returns().mean())
        m = 1e-4 + 1e-5 * ref.magnitude(False)
        inp = SequentialOPEstimatorAdapter.edp_to_rl_input(page, gamma)
        ctx.expect([len(x) for x in inp.log] == lens, "adapter-episodes", f"{[len(x) for x in inp.log]} want {lens}")
        for j, (tr, e) in enumerate(zip(inp.log, ref.eps)):
            ctx.close([t.reward for t in tr], ref.r[e][: len(tr)], "adapter-rewards", rtol=1e-5, atol=1e-6)
            ctx.close([t.action_prob for t in tr], ref.p[e][: len(tr)], "adapter-propensities", rtol=1e-5, atol=1e-6)
            for t, k in zip(tr, e):
                ctx.expect(int(t.action) == int(ref.mask[k].argmax()), "adapter-actions", f"{t.action}")
        for weighted in (False, True):
            g = ref.j_returns(weighted, [10 ** 6], dead=0.0)[0].sum()
            e = SequentialOPEstimatorAdapter(SeqDR(weighted=weighted), gamma).estimate(page)
            ctx.close(e.raw, g, f"adapter-seq-dr-{weighted}", rtol=1e-3, atol=m)
            if rets > 1e-3:
                ctx.close(e.normalized, e.raw / rets, "adapter-seq-normalized", rtol=1e-3 * max(1, 1 / rets), atol=m)
            elif rets < -1e-3:
                ctx.expect(e.normalized == 0.0, "adapter-seq-normalized-zero", f"{e}")
            # importance-only: the same with zero values
            z = Ref(page._replace(model_values=torch.zeros_like(page.model_values)), lens, gamma)
            e = SequentialOPEstimatorAdapter(SeqIPS(weighted=weighted), gamma).estimate(page)
            ctx.close(e.raw, z.j_returns(weighted, [10 ** 6], dead=0.0)[0].sum(), f"adapter-seq-ips-{weighted}", rtol=1e-3, atol=m)
        if i % 3 == 0 and len(lens) > 1:
            random.seed(i)
            s = OPEvaluator([f"a{j}" for j in range(A)], gamma, None).score_cpe("Reward", page)
            for k, e in (("dm", s.direct_method), ("ips", s.inverse_propensity), ("dr", s.doubly_robust)):
                ctx.close(e.raw, rows[k].mean(), "ope-evaluator-" + k, rtol=2e-4, atol=3 * tol_rows(rows[k]))
            ctx.close(s.sequential_doubly_robust.raw, ref.sdr().mean(), "ope-evaluator-sdr", rtol=1e-3, atol=m)
            ctx.close(s.weighted_doubly_robust.raw, ref.j_returns(True, [10 ** 6], dead=0.0)[0].sum(), "ope-evaluator-wdr", rtol=1e-3, atol=m)
            g = ref.j_returns(True, range(max(lens))).sum(1)
            ctx.expect(g.min() - 10 * m <= s.magic.raw <= g.max() + 10 * m, "ope-evaluator-magic", f"{s.magic.raw} {g}")


def misc(ctx, r, i):
    with ctx.case("misc", "", distinct=f"x{i}"):
        x = r.normal(size=int(r.integers(8, 60))) * 3 + 1
        pct, k = float(r.choice([0.25, 0.5, 1.0])), int(r.choice([1000, 2000]))
        for src in (x, torch.tensor(x)):
            std_error(ctx, bootstrapped_std_error_of_mean(src, sample_percent=pct, num_samples=k), x, "bootstrap", pct)
        ctx.expect(bootstrapped_std_error_of_mean(np.full(9, 2.5)) < 1e-9, "bootstrap-constant", "")
        a = CpeEstimate(1.0, 2.0, 3.0, 4.0)
        s = CpeEstimateSet(direct_method=a).fill_empty_with_zero()
        ctx.expect(s.direct_method == a and all(e == CpeEstimate(0.0, 0.0, 0.0, 0.0) for e in s[1:]), "fill-empty", f"{s}")
        ks = [f"k{int(v)}" for v in r.permutation(9)[: int(r.integers(0, 5))]]
        ctx.expect(get_metrics_to_score({v: 1.0 for v in ks}) == sorted(ks) and get_metrics_to_score(None) == [], "metric-order", f"{ks}")
        page, lens, A, M = make(r)
        hp = DoublyRobustHP(bootstrap_num_samples=1500, bootstrap_sample_percent=0.5)
        rows = Ref(page, lens, 0.9).rows()
        for e, n in zip(DoublyRobustEstimator().estimate(page, hp), ("dm", "ips", "dr")):
            std_error(ctx, e.raw_std_error, rows[n], "hp-" + n, 0.5)


def run(ctx):
    for name, f, q, t in [("pages", pages, 42, 800), ("adapter", adapter, 28, 400), ("misc", misc, 8, 150)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
