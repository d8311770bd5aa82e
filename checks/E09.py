"""E09: the direct-method models are trained on the sampled rows, chosen by validation and queried in the labels' own terms."""
import vf.quiet  # noqa
import copy
import math
import os
import warnings

import numpy as np
import sklearn.linear_model
import sklearn.tree
import torch
import reagent.training  # noqa  (import order)

FITS = []  # every candidate model fitted, in order: (model, x, y, weight)


def shim(base, rename):
    """the estimator under the option names of the scikit-learn this repository was written for, noting what it is fitted on"""

    class Fitted(base):
        def __init__(self, **kw):
            for k, v in list(kw.items()):
                if (k, v) in rename:
                    kw[k] = rename[(k, v)]
                if (k, None) in rename:
                    del kw[k]
            self.options = kw
            super().__init__(**kw)

        def get_params(self, deep=True):
            return dict(self.options)

        def set_params(self, **kw):
            self.options.update(kw)
            for k, v in kw.items():
                setattr(self, k, v)
            return self

        def fit(self, x, y, sample_weight=None):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if sample_weight is None:
                    out = super().fit(x, y)
                else:
                    out = super().fit(x, y, sample_weight=sample_weight)
            FITS.append((self, np.array(x), np.array(y), None if sample_weight is None else np.array(sample_weight)))
            return out

    Fitted.__name__ = Fitted.__qualname__ = base.__name__ + "_fitted"
    globals()[Fitted.__name__] = Fitted
    return Fitted


sklearn.linear_model.Lasso = shim(sklearn.linear_model.Lasso, {})
sklearn.linear_model.LogisticRegression = shim(sklearn.linear_model.LogisticRegression, {("multi_class", None): 0, ("n_jobs", None): 0})
sklearn.linear_model.SGDClassifier = shim(sklearn.linear_model.SGDClassifier, {("loss", "log"): "log_loss"})
sklearn.tree.DecisionTreeRegressor = shim(sklearn.tree.DecisionTreeRegressor, {("criterion", "mse"): "squared_error"})
sklearn.tree.DecisionTreeClassifier = shim(sklearn.tree.DecisionTreeClassifier, {})

from reagent.ope.estimators.types import TrainingData  # noqa: E402
from reagent.ope.trainers import linear_trainers as lt  # noqa: E402

RULE = (
    "The trainers behind the direct-method estimators (lasso, decision tree, tree classifier, logistic regression, SGD classifier, network) are "
    "trained on random data sets (random labels, magnitudes, weights, sub-sampling, several iterations). A recorder on every candidate model notes "
    "what it was fitted on: the rows must be distinct rows of the training data, as many as asked, each with its own target and weight. The model "
    "kept must be one of the candidates with the best validation score, recomputed here from its predictions and the validation weights. "
    "Predictions, expected scores and probabilities must be those of the kept model in terms of the labels themselves, for labels of any value, "
    "scores must be the documented accuracy or error measure, saved and loaded models must predict the same, inputs must stay untouched, untrained "
    "trainers must refuse, and the network must fit what it was given."
)
REQUIRED = {"trained": 60, "candidates": 500, "candidate_rows": 9000, "subsampled": 12, "weighted_fits": 60, "selected": 60, "predictions": 900, "odd_labels": 8, "scores": 60, "reloaded": 50, "untrained": 6, "networks": 5, "network_predictions": 60, "large_errors": 3}
ASSUMPTIONS = ["scikit-learn's renamed options (mse, log) and dropped ones (multi_class, n_jobs) are translated before the trainers are imported, because the installed scikit-learn is newer than the repository"]

REGRESSORS = dict(lasso=lt.LassoTrainer, tree=lt.DecisionTreeTrainer)
CLASSIFIERS = dict(tree_classifier=lt.DecisionTreeClassifierTrainer, logistic=lt.LogisticRegressionTrainer, sgd=lt.SGDClassifierTrainer)


def dataset(r, n, d, classes=None, scale=1.0):
    x = torch.tensor(r.normal(size=(n, d)), dtype=torch.float32)
    w = r.normal(size=d)
    z = x.numpy() @ w + r.normal(size=n) * 0.3
    if classes is None:
        return x, torch.tensor(z * scale, dtype=torch.float32)
    q = np.quantile(z, np.linspace(0, 1, len(classes) + 1)[1:-1])
    y = np.asarray(classes)[np.searchsorted(q, z)]
    flip = r.random(n) < 0.15
    y[flip] = r.choice(classes, flip.sum())
    y[: len(classes)] = classes
    return x, torch.tensor(y)


def validation_score(model, x, y, w, classifier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = np.asarray(model.predict(x.numpy()), dtype=float)
    y = y.numpy().astype(float)
    w = np.ones(len(y)) if w is None else w.numpy().astype(float)
    if classifier:
        return float((w * (p == y)).sum() / w.sum())
    return -float((w * (p - y) ** 2).sum() / w.sum())


def classic(ctx, i, name, cls, classifier):
    r = ctx.nprng(f"classic/{name}/{i}")
    n, d = int(r.integers(24, 60)), int(r.integers(1, 5))
    kinds = [[0, 1], [0, 1, 2], [-1, 1], [2, 5, 7], [0.0, 1.0]]
    classes = kinds[int(r.integers(len(kinds)))] if classifier else None
    scale = float(r.choice([0.1, 1.0, 5.0]))
    x, y = dataset(r, n, d, classes, scale)
    vx, vy = dataset(r, int(r.integers(12, 30)), d, classes, scale)
    weight = lambda k: torch.tensor(r.random(k) * 3 + 0.05, dtype=torch.float32) if r.random() < 0.6 else None  # noqa
    w, vw = weight(n), weight(len(vx))
    num = int(r.choice([0, 0, n, n + 5, max(16, n // 2), n - 1]))
    iters = int(r.choice([1, 1, 2]))
    with ctx.case(name, dict(n=n, d=d, classes=classes, scale=scale, weight=w is not None, vweight=vw is not None, num=num, iters=iters), distinct=f"{name}{i}"):
        np.random.seed(int(r.integers(1 << 30)))
        tr = cls()
        ctx.expect(not tr.is_trained, "trained-before-training", "")
        try:
            tr.predict(x)
        except Exception:
            ctx.saw("untrained")
        else:
            ctx.expect(False, "untrained-model-predicts", "")
        data = TrainingData(x, y, w, vx, vy, vw)
        before = [None if t is None else t.clone() for t in (x, y, w, vx, vy, vw)]
        FITS.clear()
        tr.train(data, iterations=iters, num_samples=num)
        ctx.saw("trained")
        fits = list(FITS)
        same = lambda: all(b is None or (torch.equal(a, b) and not a.requires_grad) for a, b in zip((x, y, w, vx, vy, vw), before))  # noqa
        ctx.expect(same(), "training-alters-its-data", "")
        ctx.require(tr.is_trained and fits, "nothing-trained", "")
        rows = {}
        for k in range(n):
            rows.setdefault((tuple(x[k].tolist()), float(y[k])), []).append(None if w is None else float(w[k]))
        want = n if num == 0 or num >= n else num
        samples = set()
        for m, fx, fy, fw in fits:
            ctx.saw("candidates")
            ctx.expect(fx.shape == (want, d) and len(fy) == want, "sample-size", f"{fx.shape} want {want}")
            keys = [(tuple(float(v) for v in a), float(b)) for a, b in zip(fx, fy)]
            samples.add(tuple(sorted(keys)))
            ctx.saw("candidate_rows", len(keys))
            ctx.expect(all(k in rows for k in keys), "row-paired-with-another-target", f"{[k for k in keys if k not in rows][:2]}")
            ctx.expect(len(set(keys)) == len(keys), "row-sampled-twice", "")
            if fw is not None:
                ctx.saw("weighted_fits")
                ctx.expect(w is not None and all(any(abs(q - float(g)) < 1e-6 for q in rows.get(k, [])) for k, g in zip(keys, fw)), "row-paired-with-another-weight", "")
            if w is not None and name in ("tree", "tree_classifier", "logistic"):
                ctx.expect(fw is not None, "weights-ignored", "")
        ctx.expect(len(samples) <= iters, "candidates-of-one-iteration-differ-in-rows", f"{len(samples)} samples in {iters} iterations")
        if want < n:
            ctx.saw("subsampled")
        kept = tr._model
        scores = [validation_score(m, vx, vy, vw, classifier) for m, *_ in fits]
        ctx.require(any(kept is m for m, *_ in fits), "kept-model-is-no-candidate", f"{kept}")
        mine = scores[[kept is m for m, *_ in fits].index(True)]
        ctx.saw("selected")
        ctx.expect(mine >= max(scores) - 1e-6 * (1 + abs(max(scores))), "kept-model-is-not-the-best", f"kept {mine}, candidates {scores}")
        query(ctx, r, tr, kept, vx, classifier)
        ctx.saw("scores")
        sw = None if r.random() < 0.5 else torch.tensor(r.random(len(vx)) + 0.1, dtype=torch.float32)
        v = validation_score(kept, vx, vy, sw, classifier)
        ctx.expect(math.isclose(tr.score(vx, vy, sw), v if classifier else 2.0 ** v, rel_tol=1e-4, abs_tol=1e-9), "score", f"{tr.score(vx, vy, sw)} want {v if classifier else 2.0 ** v}")
        path = os.path.abspath(f"model-{name}-{i}")
        tr.save_model(path)
        other = cls()
        other.load_model(path)
        ctx.saw("reloaded")
        a, b = tr.predict(vx), other.predict(vx)
        ctx.expect(other.is_trained and torch.equal(a.scores, b.scores) and (a.probabilities is None or torch.equal(a.probabilities, b.probabilities)), "reloaded-model-differs", "")
        other.reset()
        ctx.expect(not other.is_trained and tr.is_trained, "reset", "")
        ctx.expect(same(), "querying-alters-its-data", "")
        os.remove(path)


def query(ctx, r, tr, kept, x, classifier):
    out = tr.predict(x)
    n = len(x)
    ctx.saw("predictions", n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        plain = np.asarray(kept.predict(x.numpy()), dtype=float)
        proba = kept.predict_proba(x.numpy()) if hasattr(kept, "predict_proba") else None
    ctx.require(tuple(out.scores.shape) == (n,), "score-shape", f"{out.scores.shape}")
    if proba is None:
        if classifier:
            return
        ctx.close(out.scores, plain, "predicted-value", rtol=1e-5, atol=1e-6)
        return
    ctx.expect(out.scores.dtype == torch.float32 and out.probabilities.dtype == torch.float32, "prediction-dtype", f"{out.scores.dtype}")
    labels = np.asarray(kept.classes_, dtype=float)
    if list(labels) != list(range(len(labels))):
        ctx.saw("odd_labels")
    ctx.close(out.probabilities, proba, "probabilities", rtol=1e-5, atol=1e-6)
    ctx.close(out.probabilities.sum(1), np.ones(n), "probabilities-sum", rtol=1e-5, atol=1e-6)
    ctx.close(out.scores, proba @ labels, "expected-label", rtol=1e-5, atol=1e-5)
    top = np.sort(proba, 1)
    clear = top[:, -1] - top[:, -2] > 1e-6 if proba.shape[1] > 1 else np.ones(n, bool)
    got = out.predictions.numpy().astype(float)
    ctx.expect((got == labels[proba.argmax(1)])[clear].all(), "predicted-label", f"{got} want {labels[proba.argmax(1)]}")


def large(ctx, i):
    """targets of any magnitude can be trained on and scored"""
    r = ctx.nprng(f"large/{i}")
    name, cls = list(REGRESSORS.items())[i % 2]
    x, y = dataset(r, 40, 2, None, 1.0)
    y = y + float(r.choice([60.0, 1e3, -1e5]))
    vx, vy = dataset(r, 20, 2, None, 1.0)
    vy = vy - float(r.choice([60.0, 1e3]))
    with ctx.case("large", (name, float(y[0]), float(vy[0]))):
        tr = cls()
        tr.train(TrainingData(x, y, None, vx, vy, None))
        s = tr.score(vx, vy)
        ctx.saw("large_errors")
        ctx.expect(tr.is_trained and math.isfinite(s) and 0.0 <= s < 1.0, "large-error-score", f"{s}")


def network(ctx, i):
    r = ctx.nprng(f"net/{i}")
    n, d = int(r.integers(20, 60)), int(r.integers(1, 4))
    x = dataset(r, n, d)[0]
    w = torch.tensor(r.normal(size=d), dtype=torch.float32)
    y = x @ w / w.norm()
    if r.random() < 0.5:
        y = torch.stack([y, -y], 1) if r.random() < 0.5 else y.reshape(-1, 1)
    num = int(r.choice([0, n // 2]))
    with ctx.case("network", dict(n=n, d=d, y=tuple(y.shape), num=num), distinct=f"net{i}"):
        torch.manual_seed(int(r.integers(1 << 30)))
        np.random.seed(int(r.integers(1 << 30)))
        tr = lt.NNTrainer()
        try:
            tr.predict(x)
        except Exception:
            ctx.saw("untrained")
        else:
            ctx.expect(False, "untrained-model-predicts", "")
        before = x.clone(), y.clone()
        tr.train(TrainingData(x, y, None, x, y, None), iterations=60, num_samples=num)
        ctx.saw("networks")
        same = lambda: torch.equal(x, before[0]) and torch.equal(y, before[1]) and not x.requires_grad and not y.requires_grad  # noqa
        ctx.expect(same(), "training-alters-its-data", f"requires_grad={x.requires_grad}")
        out = tr.predict(x)
        ctx.saw("network_predictions", n)
        ctx.expect(same(), "querying-alters-its-data", f"requires_grad={x.requires_grad}")
        ctx.require(tuple(out.scores.shape) == (n, y.shape[1] if y.dim() > 1 else 1), "score-shape", f"{out.scores.shape}")
        want = y.reshape(n, -1)
        mse = float(((out.scores.detach() - want) ** 2).mean())
        ctx.expect(mse < 0.6 * float((want ** 2).mean()), "network-does-not-fit", f"{mse} against {float((want ** 2).mean())}")
        ctx.expect(torch.equal(tr.predict(x).scores, out.scores), "prediction-not-repeatable", "")
        one = tr.predict(x[3:4]).scores
        ctx.close(one.detach(), out.scores[3:4].detach(), "prediction-depends-on-batch", rtol=1e-4, atol=1e-5)
        ctx.saw("scores")
        ctx.close(np.array(tr.score(x, y)), np.array(mse), "network-score", rtol=1e-4, atol=1e-6)


def run(ctx):
    with ctx.part("classic"):
        for i in range(ctx.n(8, 80)):
            for name, cls in REGRESSORS.items():
                classic(ctx, f"{i}a", name, cls, False)
                classic(ctx, f"{i}b", name, cls, False)
            for name, cls in CLASSIFIERS.items():
                classic(ctx, i, name, cls, True)
                classic(ctx, f"{i}b", name, cls, True)
    with ctx.part("large"):
        for i in range(ctx.n(6, 40)):
            large(ctx, i)
    with ctx.part("network"):
        for i in range(ctx.n(12, 80)):
            network(ctx, i)
