"""E01: bandit off-policy estimates equal their textbook definitions."""
import vf.quiet  # noqa
import math

import numpy as np
import torch
from reagent.ope.estimators.contextual_bandits_estimators import (
    BanditsEstimatorInput, DMEstimator, DoublyRobustEstimator, IPSEstimator, LogSample, ModelOutputs, SwitchDREstimator, SwitchEstimator,
)
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, PredictResults, Trainer
from reagent.ope.utils import Clamper

RULE = (
    "Random logs (1-40 samples, 1-6 actions, zero and tiny propensities, missing logged actions, clamped weights, NaN "
    "ground truth) are evaluated by every bandit estimator; each result field is recomputed sample by sample in plain "
    "Python. Without model outputs the direct model is a recording trainer: the two cross-fitting folds it saw are matched "
    "against the samples (train and evaluation disjoint, together everything) and the estimate recomputed from its "
    "predictions. Identities (on-policy importance = mean reward, doubly robust with a perfect model = direct method, "
    "switch at its extreme thresholds) are checked on generated data. Bootstrapped errors are compared with their expectation."
)
REQUIRED = {"estimates": 200, "low_propensity": 40, "no_action": 25, "clamped": 50, "cross_fit": 20, "switch": 40, "identities": 15, "std_err": 20, "weighted": 20, "no_model": 15}


class Table(Trainer):
    """Least-squares model on the given features, remembering what it was trained on."""

    def __init__(self, perfect=None):
        super().__init__()
        self.trained, self.n_train = [], 0

    @property
    def name(self):
        return "table"

    def train(self, data, iterations=1, num_samples=0):
        self.n_train += 1
        x = torch.cat([data.train_x, data.validation_x]).double().numpy()
        y = torch.cat([data.train_y, data.validation_y]).double().numpy()
        n_tr = len(data.train_x)
        self.trained.append((x[:n_tr], y[:n_tr], x[n_tr:], y[n_tr:]))
        xt, yt = x[:n_tr], y[:n_tr]
        A = np.concatenate([xt, np.ones((len(xt), 1))], 1)
        self._model = np.linalg.solve(A.T @ A + 0.1 * np.eye(A.shape[1]), A.T @ yt)

    def val(self, model, x):
        return np.concatenate([x, np.ones((len(x), 1))], 1) @ model

    def predict(self, x, device=None):
        return PredictResults(None, torch.tensor(self.val(self._model, x.double().numpy()), dtype=torch.float), None)

    def score(self, x, y, weight=None):
        return 0.0


def dist(rng, a, floor=True):
    p = rng.dirichlet(np.ones(a) * rng.choice([0.3, 1.0, 5.0]))
    if floor and a > 1 and rng.random() < 0.35:
        j = int(rng.integers(a))
        p[j] = float(rng.choice([0.0, 1e-8, 5e-7, 2e-6]))
        p = p / p.sum()
    return p


def adist(rng, p):
    k = int(rng.integers(3))
    if k == 0:
        return ActionDistribution(list(p))
    return ActionDistribution(torch.tensor(p)) if k == 1 else ActionDistribution(np.array(p))


def make(rng, n, a, outputs=True, none_ok=True, features=0):
    rows, samples = [], []
    scale = float(rng.choice([0.1, 1.0, 10.0]))
    off = float(rng.choice([0.0, 0.0, 1.0, -2.0]))
    for i in range(n):
        lp, tp = dist(rng, a), dist(rng, a, floor=False)
        la = int(rng.integers(a))
        if none_ok and rng.random() < 0.1:
            la = None
        r = float(rng.normal() * scale + off)
        m = rng.normal(size=a) * scale
        ml = float(m[la]) if la is not None and rng.random() < 0.8 else float(rng.normal())
        gt = float("nan") if rng.random() < 0.2 else float(rng.normal())
        feat = rng.normal(size=features).astype(np.float32) if features else None
        if features:
            feat[0] = i  # identifies the sample
        rows.append(dict(lp=lp, tp=tp, a=la, r=r, m=m.astype(np.float32).astype(float), ml=ml, gt=gt, f=feat))
        samples.append(LogSample(
            context=i, log_action=Action(la), log_reward=r, log_action_probabilities=adist(rng, lp),
            tgt_action_probabilities=adist(rng, tp), tgt_action=Action(int(tp.argmax())),
            model_outputs=ModelOutputs(ml, [float(x) for x in m]) if outputs else None, ground_truth_reward=gt,
            item_feature=torch.tensor(feat) if features else None))
    return rows, samples


def clamp(rng):
    if rng.random() < 0.5:
        return None, -math.inf, math.inf
    lo, hi = (0.0, float(rng.choice([0.5, 1.0, 5.0]))) if rng.random() < 0.7 else (float(rng.choice([0.1, 0.5])), 2.0)
    return Clamper(lo, hi), lo, hi


def weight(ctx, row, lo, hi):
    p = row["lp"][row["a"]]
    w = 0.0 if p < 1e-6 else row["tp"][row["a"]] / p
    if p < 1e-6:
        ctx.saw("low_propensity")
    c = min(max(w, lo), hi)
    if c != w:
        ctx.saw("clamped")
    return c


def mean(xs):
    xs = [x for x in xs if math.isfinite(x)]
    return sum(xs) / len(xs) if xs else float("nan")


def match(ctx, name, got, rows, vals, rtol=1e-4, scale=None):
    """got: EstimatorResult; vals: per-sample contributions."""
    ctx.saw("estimates")
    ctx.require(got is not None, name + "-none", "no result")
    sc = max(1.0, max(abs(v) for v in vals))
    want, lr = mean(vals), mean([r["r"] for r in rows])
    ctx.close(got.estimated_reward, want, name, rtol=rtol, atol=1e-5 * sc)
    ctx.close(got.log_reward, lr, name + "-logged", rtol=1e-6, atol=1e-7 * sc)
    ctx.close(got.ground_truth_reward, mean([r["gt"] for r in rows]), name + "-truth", rtol=1e-6, atol=1e-7)
    ctx.close(got.estimated_weight, len(rows), name + "-count")
    norm = 0.0 if lr < 1e-6 else 1.0 / lr
    ctx.close(got.estimated_reward_normalized, want * norm, name + "-normalized", rtol=2e-4, atol=2e-5 * sc * max(1, norm))
    se, ns = got.estimated_reward_std_error, got.estimated_reward_normalized_std_error
    if len(rows) >= 4:
        ctx.close(ns, se * norm, name + "-normalized-error", rtol=1e-4, atol=1e-6 * max(1, norm))
        ctx.expect(se >= 0, name + "-error-sign", f"{se}")
        v = np.array(vals)
        # bounded spread only, so that 1000 bootstrap means estimate it well
        if len(rows) >= 12 and np.ptp(v) < 6 * v.std() + 1e-12:
            ctx.saw("std_err")
            k = int(0.25 * len(rows))
            ctx.close(se, v.std() / math.sqrt(k), name + "-bootstrap", rtol=0.3, atol=1e-6 * sc)


def outputs(ctx, rng, i):
    n, a = int(rng.choice([1, 2, 4, 15, 40])), int(rng.integers(1, 7))
    with ctx.case("model-outputs", f"n={n} a={a}", distinct=f"o{i}"):
        rows, samples = make(rng, n, a)
        inp = BanditsEstimatorInput(ActionSpace(a), samples, True)
        ctx.saw("no_action", sum(r["a"] is None for r in rows))
        dm = [float(np.dot(r["m"], r["tp"])) for r in rows]
        match(ctx, "dm", DMEstimator().evaluate(inp), rows, dm)
        c, lo, hi = clamp(rng)
        ws = [0.0 if r["a"] is None else weight(ctx, r, lo, hi) for r in rows]
        match(ctx, "ips", IPSEstimator(weight_clamper=c).evaluate(inp), rows, [w * r["r"] for w, r in zip(ws, rows)])
        if sum(ws) > 1e-6:
            ctx.saw("weighted")
            mw = sum(ws) / n
            match(ctx, "wips", IPSEstimator(weight_clamper=c, weighted=True).evaluate(inp), rows, [w * r["r"] / mw for w, r in zip(ws, rows)])
        dr = [d if r["a"] is None else (r["r"] - r["ml"]) * w + d for d, w, r in zip(dm, ws, rows)]
        match(ctx, "dr", DoublyRobustEstimator(weight_clamper=c).evaluate(inp), rows, dr, rtol=2e-4)


def switch(ctx, rng, i):
    n, a = int(rng.choice([2, 5, 12, 30])), int(rng.integers(1, 6))
    with ctx.case("switch", f"n={n} a={a}", distinct=f"w{i}"):
        rows, samples = make(rng, n, a, none_ok=False)
        inp = BanditsEstimatorInput(ActionSpace(a), samples, True)
        c, lo, hi = clamp(rng)
        rmax = float(rng.choice([1.0, 5.0])) if rng.random() < 0.4 else None
        rm = rmax if rmax is not None else max(max(r["r"], r["m"].max()) for r in rows)
        W = np.array([[min(max(0.0 if r["lp"][j] < 1e-6 else r["tp"][j] / r["lp"][j], lo), hi) for j in range(a)] for r in rows])
        if W.max() > 1e4:
            return  # float32 cannot tell the thresholds apart
        T = np.array([r["tp"] for r in rows])
        M = np.array([r["m"] for r in rows])
        la = np.array([r["a"] for r in rows])
        R, ML = np.array([r["r"] for r in rows]), np.array([r["ml"] for r in rows])
        w = W[np.arange(n), la]
        kw = {}
        base, nc = 1.5, 21
        if rng.random() < 0.5:
            base, nc = float(rng.choice([1.0, 1.2, 2.0])), int(rng.choice([0, 1, 5, 30]))
            kw = dict(exp_base=base, candidates=nc)
        mn, mx = W.min(), W.max()
        cands = [mn + base ** x / base ** (nc - 1) * (mx - mn) for x in range(nc)]
        for name, cls in (("switch", SwitchEstimator), ("switch-dr", SwitchDREstimator)):
            def vals(t, strict):
                hi_w = (W > t + strict * 1e-5 * max(1, abs(t))).astype(float)
                lo_w = (w <= t + strict * 1e-5 * max(1, abs(t))).astype(float)
                base_v = R * w if name == "switch" else w * (R - ML) + (T * M).sum(1)
                return base_v * lo_w + (M * T * hi_w).sum(1), (rm * T * hi_w).sum(1).mean()
            # thresholds sit exactly on weights at the ends, so float32 may decide those either way
            opts = []
            for t in cands:
                for strict in (-1, 0, 1):
                    v, b = vals(t, strict)
                    opts.append((((v - v.mean()) ** 2).sum() / n ** 2 + b * b, v, strict))
            if opts:
                # an honest implementation picks some candidate no worse than the best under its own rounding
                worst_best = min(max(o[0] for o in opts[3 * k:3 * k + 3]) for k in range(len(cands)))
                ok = [o[1] for o in opts if o[0] <= worst_best * 1.001 + 1e-6]
            else:
                ok = [vals(mn - 1e-6, 0)[0], vals(mn - 1e-6, -1)[0]]
            got = cls(weight_clamper=c, rmax=rmax).evaluate(inp, **kw)
            ctx.saw("switch")
            ctx.require(got is not None, name + "-none", "")
            sc = max(1.0, np.abs(M).max(), np.abs(R * w).max())
            ctx.expect(any(abs(got.estimated_reward - v.mean()) < 1e-3 * sc for v in ok), name, f"got {got.estimated_reward}, threshold candidates give {sorted(set(round(float(v.mean()), 4) for v in ok))}")
            ctx.close(got.log_reward, R.mean(), name + "-logged", rtol=1e-6, atol=1e-6 * sc)
            ctx.close(got.estimated_weight, n, name + "-count")
            lr = R.mean()
            norm = 0.0 if lr < 1e-6 else 1 / lr
            ctx.close(got.estimated_reward_normalized, got.estimated_reward * norm, name + "-normalized", rtol=1e-3, atol=1e-4 * sc * max(1, norm))


def cross(ctx, rng, i):
    n, a = int(rng.integers(6, 25)), int(rng.integers(1, 5))
    with ctx.case("cross-fit", f"n={n} a={a}", distinct=f"c{i}"):
        rows, samples = make(rng, n, a, outputs=False, none_ok=False, features=3)
        inp = BanditsEstimatorInput(ActionSpace(a), samples, False)
        c, lo, hi = clamp(rng)
        for name, est in (("cross-dm", DMEstimator), ("cross-dr", DoublyRobustEstimator)):
            tr = Table()
            got = est(tr) if name == "cross-dm" else est(tr, weight_clamper=c)
            got = got.evaluate(inp)
            ctx.saw("cross_fit")
            ctx.require(len(tr.trained) == 2, "cross-folds", f"{len(tr.trained)} models trained")
            folds = []
            for tx, ty, vx, vy in tr.trained:
                ids = [int(round(v[1])) for v in np.concatenate([tx, vx])]
                ctx.expect(len(set(ids)) == len(ids), "cross-duplicates", f"{ids}")
                for v, y in zip(np.concatenate([tx, vx]), np.concatenate([ty, vy])):
                    r = rows[int(round(v[1]))]
                    ctx.expect(int(v[0]) == r["a"] and np.allclose(v[1:], r["f"], atol=1e-6) and abs(y - r["r"]) < 1e-5 * max(1, abs(r["r"])), "cross-training-rows",
                               f"trained on {v} -> {y}, logged action {r['a']} features {r['f']} reward {r['r']}")
                folds.append(set(ids))
            ctx.require(folds[0] | folds[1] == set(range(n)), "cross-cover", f"{folds}")
            ctx.require(not (folds[0] & folds[1]), "cross-overlap", f"{folds[0] & folds[1]}")
            ctx.expect(abs(len(folds[0]) - len(folds[1])) <= 1, "cross-halves", f"{len(folds[0])} {len(folds[1])}")
            ests = []
            for (tx, ty, vx, vy), ids in zip(tr.trained, folds):
                A = np.concatenate([tx, np.ones((len(tx), 1))], 1)
                mod = np.linalg.solve(A.T @ A + 0.1 * np.eye(A.shape[1]), A.T @ ty)
                vals = []
                for k in sorted(set(range(n)) - ids):  # evaluated on the samples its model never saw
                    r = rows[k]
                    p = tr.val(mod, np.array([np.concatenate([[j], r["f"]]) for j in range(a)]))
                    d = float(p @ r["tp"])
                    vals.append(d if name == "cross-dm" else (r["r"] - p[r["a"]]) * weight(ctx, r, lo, hi) + d)
                ests.append(vals)
            sc = max(1.0, max(abs(v) for f in ests for v in f))
            ctx.close(got.estimated_reward, (mean(ests[0]) + mean(ests[1])) / 2, name, rtol=1e-3, atol=1e-3 * sc)
            ctx.close(got.log_reward, mean([r["r"] for r in rows]), name + "-logged", rtol=1e-6, atol=1e-6)
            ctx.close(got.ground_truth_reward, mean([r["gt"] for r in rows]), name + "-truth", rtol=1e-6, atol=1e-6)


def identities(ctx, rng, i):
    n, a = int(rng.integers(1, 30)), int(rng.integers(1, 6))
    with ctx.case("identities", f"n={n} a={a}", distinct=f"i{i}"):
        ctx.saw("identities")
        s1, s2, truth = [], [], []
        for k in range(n):
            p, q = rng.dirichlet(np.ones(a)) * 0.9 + 0.1 / a, rng.dirichlet(np.ones(a)) * 0.9 + 0.1 / a
            m = rng.normal(size=a).astype(np.float32).astype(float)
            la = int(rng.choice(a, p=p))
            truth.append((float(m[la]), float(m @ q)))
            for tgt, out in ((p, s1), (q, s2)):
                out.append(LogSample(context=k, log_action=Action(la), log_reward=float(m[la]), log_action_probabilities=ActionDistribution(list(p)),
                                     tgt_action_probabilities=ActionDistribution(list(tgt)), tgt_action=Action(0), model_outputs=ModelOutputs(float(m[la]), [float(x) for x in m])))
        on, off = BanditsEstimatorInput(ActionSpace(a), s1, True), BanditsEstimatorInput(ActionSpace(a), s2, True)
        lr = mean([t[0] for t in truth])
        for w in (False, True):
            ctx.close(IPSEstimator(weighted=w).evaluate(on).estimated_reward, lr, "on-policy-ips", rtol=1e-4, atol=1e-5)
        dm = DMEstimator().evaluate(off).estimated_reward
        ctx.close(dm, mean([t[1] for t in truth]), "perfect-dm", rtol=1e-4, atol=1e-5)
        ctx.close(DoublyRobustEstimator().evaluate(off).estimated_reward, dm, "perfect-dr", rtol=1e-4, atol=1e-5)
        ctx.close(SwitchEstimator(rmax=1.0).evaluate(off, exp_base=1.0, candidates=1).estimated_reward, IPSEstimator().evaluate(off).estimated_reward, "switch-high", rtol=1e-3, atol=1e-3)
        ctx.close(SwitchEstimator(rmax=1.0).evaluate(off, candidates=0).estimated_reward, dm, "switch-low", rtol=1e-3, atol=1e-3)
        # no model at all: the direct method has no answer, doubly robust falls back to importance sampling
        bare = BanditsEstimatorInput(ActionSpace(a), [LogSample(context=s.context, log_action=s.log_action, log_reward=s.log_reward, log_action_probabilities=s.log_action_probabilities,
                                                                tgt_action_probabilities=s.tgt_action_probabilities, tgt_action=s.tgt_action) for s in s2], False)
        ctx.saw("no_model")
        ctx.expect(DMEstimator().evaluate(bare) is None, "dm-without-model", "direct method without a model produced an estimate")
        if n >= 2 and n % 2 == 0:
            ctx.close(DoublyRobustEstimator().evaluate(bare).estimated_reward, IPSEstimator().evaluate(bare).estimated_reward, "dr-without-model", rtol=1e-4, atol=1e-5)


def run(ctx):
    for name, f, q, t in [("outputs", outputs, 120, 1500), ("switch", switch, 50, 500), ("cross", cross, 20, 150), ("identities", identities, 30, 300)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
