"""A02: continuous actors report the density of the action they take."""
import vf.quiet  # noqa
import numpy as np
import torch
from scipy import stats as sps
from scipy.special import gammaln
import reagent.types as rlt
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE

from vf.stats import multinomial_ok

RULE = (
    "Random actors (1-4 action dimensions, with and without normalisation layers, output scales from nearly deterministic "
    "to saturating) act on random states. The location and log-scale are taken from the last linear layer by a forward "
    "hook, and the log density with squashing correction is recomputed in float64 for the returned action and for "
    "arbitrary actions. One- and two-dimensional densities are integrated on a grid, and samples are tested against the "
    "density through the probability integral transform. The sampler/scorer pair, the Dirichlet actor (simplex, density, "
    "beta marginals) and the deterministic actor with exploration noise are treated alike."
)
REQUIRED = {"gauss_rows": 500, "arbitrary": 500, "integrals": 10, "pit": 20, "l2": 30, "dirichlet_rows": 200, "dirichlet_integrals": 5,
            "det_rows": 200, "noise_rows": 100, "sampler_rows": 150, "clamped_scale": 20, "gradients": 30}
EPS = 1e-6


class Tap:
    """Records the output of the last linear layer (which gives the distribution parameters)."""

    def __init__(self, actor, width):
        lin = [m for m in actor.modules() if isinstance(m, torch.nn.Linear)]
        assert lin and lin[-1].out_features == width, [m.out_features for m in lin]
        self.lin, self.out = lin[-1], None
        self.h = self.lin.register_forward_hook(lambda m, i, o: setattr(self, "out", o.detach().double().numpy()))


def gauss(rng, d, sd, spread, **kw):
    a = GaussianFullyConnectedActor(sd, d, [int(rng.integers(2, 6))], ["relu" if rng.random() < 0.5 else "tanh"], **kw)
    tap = Tap(a, 2 * d)
    with torch.no_grad():
        tap.lin.weight.normal_(0, 0.5)
        tap.lin.bias[:d] = torch.tensor(rng.normal(size=d) * spread[0], dtype=torch.float)
        tap.lin.bias[d:] = torch.tensor(rng.uniform(*spread[1], size=d), dtype=torch.float)
    return a, tap


def ln(x):
    return (x - x.mean(1, keepdims=True)) / np.sqrt(x.var(1, keepdims=True) + 1e-5)


def loc_scale(out, d, layer_norm):
    loc, ls = out[:, :d], out[:, d:]
    if layer_norm:
        loc, ls = ln(loc), ln(ls)
    return loc, np.clip(ls, -20.0, 2.0)


def logp(a, loc, ls, rounded=False):
    """float64 log density of squashed action a, and the float32 error to expect of it."""
    a = a.astype(np.float64)
    raw = np.arctanh(a)
    sig = np.exp(ls)
    r = (raw - loc) / sig
    lp = -r ** 2 / 2 - ls - 0.5 * np.log(2 * np.pi) - np.log(1 - a ** 2 + EPS)
    e = (4e-7 * (1 + np.abs(raw) + np.abs(loc))) / sig  # error in r
    # 1 - a^2 is a cancellation in float32
    tol = 1e-3 + (np.abs(r) * e + e ** 2) * 3 + 3e-7 / (1 - a ** 2 + EPS) + 3e-6 * r ** 2
    if rounded:  # the density was taken before the action was rounded to float32 (or clamped)
        e2 = np.where(np.abs(a) >= 1 - 2 * EPS, np.inf, 1.3e-7 / (1 - a ** 2 + EPS)) / sig
        tol = tol + np.abs(r) * e2 * 2 + e2 ** 2
    return lp.sum(1, keepdims=True), np.nan_to_num(tol.sum(1, keepdims=True), nan=np.inf)


def near(ctx, got, want, tol, mech):
    g = got.detach().double().numpy()
    ctx.require(g.shape == want.shape, mech + "-shape", f"{g.shape} want {want.shape}")
    bad = ~(np.abs(g - want) <= tol)
    ctx.expect(not bad.any(), mech, f"got {g[bad][:3]} want {want[bad][:3]} tolerance {tol[bad][:3]}")


def pit(ctx, u, mech):
    u = np.clip(u, 0, 1 - 1e-12)
    ctx.saw("pit", u.shape[1])
    for j in range(u.shape[1]):
        c = np.bincount((u[:, j] * 16).astype(int), minlength=16)
        ok, why = multinomial_ok(c.tolist(), [1 / 16] * 16)
        ctx.expect(ok, mech, f"{why} {c.tolist()}")
    for j in range(u.shape[1] - 1):
        c = np.bincount((u[:, j] * 4).astype(int) * 4 + (u[:, j + 1] * 4).astype(int), minlength=16)
        ok, why = multinomial_ok(c.tolist(), [1 / 16] * 16)
        ctx.expect(ok, mech + "-independence", f"{why} {c.tolist()}")


def gaussian(ctx, rng, i):
    d, sd = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    layer_norm, bn = rng.random() < 0.25, rng.random() < 0.2
    l2 = rng.random() < 0.2 and d > 1
    spread = [(1.0, (-3, 0)), (0.3, (-1, 1)), (4.0, (-30, 5)), (2.0, (-6, 2))][int(rng.integers(4))]
    with ctx.case("gaussian", f"d={d} ln={layer_norm} bn={bn} l2={l2} spread={spread}", distinct=f"g{i}"):
        actor, tap = gauss(rng, d, sd, spread, use_layer_norm=layer_norm, use_batch_norm=bn, use_l2_normalization=l2)
        if bn or rng.random() < 0.5:
            actor.eval()
        n = int(rng.integers(2, 20))
        st = rlt.FeatureData(torch.tensor(rng.normal(size=(n, sd)), dtype=torch.float))
        out = actor(st)
        loc, ls = loc_scale(tap.out, d, layer_norm)
        raw_ls = ln(tap.out[:, d:]) if layer_norm else tap.out[:, d:]
        ctx.saw("clamped_scale", int(((raw_ls > 2) | (raw_ls < -20)).sum()))
        a = out.action.detach().numpy()
        ctx.require(a.shape == (n, d), "action-shape", f"{a.shape}")
        mean = np.clip(np.tanh(loc), -1 + EPS, 1 - EPS)
        if l2:
            ctx.saw("l2", n)
            ctx.close(np.sqrt((a.astype(np.float64) ** 2).sum(1)), np.ones(n), "l2-unit", rtol=1e-3, atol=1e-4)
            ctx.close(out.squashed_mean, mean / np.sqrt((mean ** 2).sum(1, keepdims=True)), "l2-mean", rtol=1e-2, atol=1e-3)
            return  # the density after L2 normalisation is declared unimplemented
        ctx.saw("gauss_rows", n)
        ctx.expect(bool((np.abs(a) < 1).all()), "action-range", f"{np.abs(a).max()}")
        ctx.close(out.squashed_mean, mean, "squashed-mean", rtol=1e-4, atol=1e-5)
        want, tol = logp(a, loc, ls)
        near(ctx, out.log_prob, want, tol, "log-prob")
        again = actor.get_log_prob(st, out.action)
        near(ctx, again, want, tol, "recomputed")
        b = np.tanh(loc + rng.normal(size=loc.shape) * np.exp(np.clip(ls, -5, 0)) * 2).clip(-1 + 1e-5, 1 - 1e-5).astype(np.float32)
        ctx.saw("arbitrary", n)
        want, tol = logp(b, loc, ls)
        near(ctx, actor.get_log_prob(st, torch.tensor(b)), want, tol, "log-prob-arbitrary")
        # row independence
        if not bn:
            k = int(rng.integers(n))
            one = rlt.FeatureData(st.float_features[k:k + 1])
            near(ctx, actor.get_log_prob(one, torch.tensor(b[k:k + 1])), want[k:k + 1], tol[k:k + 1] * 2, "row-independent")
        # reparameterised: the action carries gradient to location and scale
        if np.abs(mean).max() < 0.99 and ls.min() > -5:
            ctx.saw("gradients")
            g = torch.autograd.grad(out.action.sum(), [tap.lin.bias], retain_graph=True)[0].numpy()
            raw = np.arctanh(a.astype(np.float64))
            jac = 1 - a.astype(np.float64) ** 2
            r = (raw - loc)
            # not saturated by the safety clamp
            sat = np.abs(a) >= 1 - 2 * EPS
            if not sat.any() and not layer_norm:
                inside = (raw_ls < 2) & (raw_ls > -20)
                ctx.close(g[:d], jac.sum(0), "gradient-loc", rtol=1e-2, atol=1e-2)
                ctx.close(g[d:], (jac * r * inside).sum(0), "gradient-scale", rtol=1e-2, atol=1e-2)


def gaussian_dist(ctx, rng, i):
    d = int(rng.integers(1, 4))
    with ctx.case("gaussian-distribution", f"d={d}", distinct=f"gd{i}"):
        actor, tap = gauss(rng, d, 2, (0.4, (-2.5, -0.7)))
        if rng.random() < 0.5:
            actor.eval()
        x = torch.tensor(rng.normal(size=(1, 2)), dtype=torch.float)
        N = 3000
        out = actor(rlt.FeatureData(x.repeat(N, 1)))
        loc, ls = loc_scale(tap.out[:1], d, False)
        u = sps.norm.cdf((np.arctanh(out.action.detach().double().numpy()) - loc) / np.exp(ls))
        wide = (np.abs(loc) + 6 * np.exp(ls)).max()
        if wide < 6:  # beyond that the declared safety clamp of the squashed action shows
            pit(ctx, u, "sample-distribution")
        # integrate the reported density over the action box
        m = 4000 if d == 1 else 300
        if d <= 2:
            g = [np.linspace(-8, 8, m) * np.exp(ls[0, j]) + loc[0, j] for j in range(d)]
            a1 = [np.tanh(v) for v in g]
            jac = [(1 - v ** 2) * (w[1] - w[0]) for v, w in zip(a1, g)]
            if max(np.abs(v).max() for v in a1) < 1 - 1e-4:
                mesh = np.stack(np.meshgrid(*a1, indexing="ij"), -1).reshape(-1, d)
                wt = np.stack(np.meshgrid(*jac, indexing="ij"), -1).reshape(-1, d).prod(1)
                lp = actor.get_log_prob(rlt.FeatureData(x.repeat(len(mesh), 1)), torch.tensor(mesh, dtype=torch.float))
                tot = (np.exp(lp.detach().double().numpy()[:, 0]) * wt).sum()
                ctx.saw("integrals")
                ctx.expect(abs(tot - 1) < 0.01, "integrates-to-one", f"{tot}")


def sampler(ctx, rng, i):
    d = int(rng.integers(1, 4))
    with ctx.case("sampler", f"d={d}", distinct=f"sm{i}"):
        actor, tap = gauss(rng, d, 2, (0.5, (-3, -0.5)))
        n = int(rng.integers(1, 12))
        st = rlt.FeatureData(torch.tensor(rng.normal(size=(n, 2)), dtype=torch.float))
        score = sac_scorer(actor)
        s = score(st)
        loc, ls = loc_scale(tap.out, d, False)
        ctx.close(s.loc, loc, "scorer-loc")
        ctx.close(s.scale_log, ls, "scorer-scale")
        smp = GaussianSampler(actor)
        for out in (smp.sample_action(s), Policy(score, smp).act(st)):
            a = out.action.numpy()
            ctx.require(a.shape == (n, d) and bool((np.abs(a) < 1).all()), "sampler-range", f"{a}")
            ctx.saw("sampler_rows", n)
            want, tol = logp(a, loc, ls, rounded=True)
            ctx.require(tuple(out.log_prob.shape) == (n,), "sampler-shape", f"{out.log_prob.shape}")
            near(ctx, out.log_prob, want[:, 0], tol[:, 0], "sampler-logp")
            want, tol = logp(a, loc, ls)
            near(ctx, smp.log_prob(s, out.action), want[:, 0], tol[:, 0], "sampler-recomputed")
        b = np.tanh(rng.normal(size=(n, d))).astype(np.float32)
        want, tol = logp(b, loc, ls)
        near(ctx, smp.log_prob(s, torch.tensor(b)), want[:, 0], tol[:, 0], "sampler-arbitrary")
        ctx.expect(actor.training, "sampler-mode", "actor left in evaluation mode")
        if i % 3 == 0 and (np.abs(loc[:1]) + 6 * np.exp(ls[:1])).max() < 6:
            N = 3000
            from reagent.gym.types import GaussianSamplerScore
            o = smp.sample_action(GaussianSamplerScore(loc=s.loc[:1].repeat(N, 1), scale_log=s.scale_log[:1].repeat(N, 1)))
            pit(ctx, sps.norm.cdf((np.arctanh(o.action.double().numpy()) - loc[:1]) / np.exp(ls[:1])), "sampler-distribution")


def dir_logp(a, c):
    a = a.astype(np.float64)
    a = a / a.sum(1, keepdims=True)
    return ((c - 1) * np.log(a)).sum(1, keepdims=True) + gammaln(c.sum(1, keepdims=True)) - gammaln(c).sum(1, keepdims=True)


def dirichlet(ctx, rng, i):
    d = int(rng.integers(2, 5))
    with ctx.case("dirichlet", f"d={d}", distinct=f"di{i}"):
        actor = DirichletFullyConnectedActor(2, d, [4], ["relu"])
        tap = Tap(actor, d)
        with torch.no_grad():
            tap.lin.bias.copy_(torch.tensor(rng.uniform(-0.3, 3, size=d)))
        train = rng.random() < 0.6
        actor.train(train)
        n = int(rng.integers(1, 15))
        st = rlt.FeatureData(torch.tensor(rng.normal(size=(n, 2)) * 0.5, dtype=torch.float))
        out = actor(st)
        c = np.exp(tap.out) + EPS
        a = out.action.detach().numpy()
        ctx.saw("dirichlet_rows", n)
        ctx.require(a.shape == (n, d), "dirichlet-shape", f"{a.shape}")
        ctx.expect(bool((a >= 0).all()) and np.allclose(a.sum(1), 1, atol=1e-5), "simplex", f"{a}")
        want = dir_logp(np.maximum(a, 1e-30), c)
        ok = (a.min(1) > 1e-4)
        got = actor.get_log_prob(st, out.action)
        ctx.require(got.shape == (n, 1), "dirichlet-logp-shape", f"{got.shape}")
        ctx.close(got[torch.tensor(ok)], want[ok], "dirichlet-logp", rtol=2e-3, atol=5e-3)
        ctx.expect(not got.requires_grad, "dirichlet-no-grad", "")
        if train:
            ctx.require(out.log_prob is not None and out.log_prob.shape == (n, 1), "dirichlet-logp-shape", "")
            ctx.close(out.log_prob[torch.tensor(ok)], want[ok], "dirichlet-reported", rtol=2e-3, atol=5e-3)
        if i % 3 == 0:
            x = st.float_features[:1]
            N = 3000
            o = actor(rlt.FeatureData(x.repeat(N, 1)))
            c0 = c[0]
            u = np.stack([sps.beta.cdf(o.action.detach().double().numpy()[:, j], c0[j], c0.sum() - c0[j]) for j in range(d)], 1)
            for j in range(d):
                pit(ctx, u[:, j:j + 1], "dirichlet-distribution")
        if d == 2 and c[0].min() > 1.05:
            g = (np.arange(4000) + 0.5) / 4000
            mesh = np.stack([g, 1 - g], 1)
            x = st.float_features[:1].repeat(len(g), 1)
            tot = np.exp(actor.get_log_prob(rlt.FeatureData(x), torch.tensor(mesh, dtype=torch.float)).double().numpy()).sum() / 4000
            ctx.saw("dirichlet_integrals")
            ctx.expect(abs(tot - 1) < 0.02, "dirichlet-integral", f"{tot} for {c[0]}")


def deterministic(ctx, rng, i):
    d = int(rng.integers(1, 4))
    var = None if rng.random() < 0.4 else float(rng.choice([0.01, 0.1, 0.5, 2.0]))
    actf = str(rng.choice(["tanh", "tanh", "sigmoid", "linear"]))
    lo, hi = CONTINUOUS_TRAINING_ACTION_RANGE
    with ctx.case("deterministic", f"d={d} var={var} {actf}", distinct=f"de{i}"):
        actor = FullyConnectedActor(2, d, [4], ["relu"], action_activation=actf, exploration_variance=var)
        tap = Tap(actor, d)
        with torch.no_grad():
            tap.lin.bias.normal_(0, 0.5)
        n = int(rng.integers(1, 15)) if i % 4 else 2000
        x = torch.tensor(rng.normal(size=(1 if n == 2000 else n, 2)), dtype=torch.float)
        st = rlt.FeatureData(x.repeat(n, 1) if n == 2000 else x)
        out = actor(st)
        f = {"tanh": np.tanh, "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "linear": lambda v: v}[actf]
        mean = f(tap.out)
        a = out.action.detach().double().numpy()
        ctx.saw("det_rows", n)
        ctx.require(a.shape == (n, d) and out.log_prob.shape == (n, 1), "det-shape", f"{a.shape} {out.log_prob.shape}")
        if var is None:
            ctx.close(a, mean, "det-action", rtol=1e-4, atol=1e-5)
            ctx.expect(bool((out.log_prob == 0).all()), "det-logp", "")
            return
        ctx.expect(bool((a >= lo - 1e-6).all() and (a <= hi + 1e-6).all()), "noise-range", f"{a.min()} {a.max()}")
        free = ((a > lo + 1e-5) & (a < hi - 1e-5)).all(1)
        ctx.saw("noise_rows", int(free.sum()))
        noise = a - mean
        want = sps.norm.logpdf(noise[free], 0, var).sum(1, keepdims=True)
        ctx.close(out.log_prob[torch.tensor(free)], want, "noise-logp", rtol=1e-3, atol=2e-3 + 3e-5 / var)
        if n == 2000 and (np.abs(mean[0]) < 0.5).all() and var <= 0.1:
            pit(ctx, sps.norm.cdf(noise / var), "noise-distribution")


def run(ctx):
    for name, f, q, t in [("gaussian", gaussian, 160, 3000), ("gaussian_dist", gaussian_dist, 30, 300), ("sampler", sampler, 40, 400),
                          ("dirichlet", dirichlet, 80, 800), ("deterministic", deterministic, 80, 800)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
