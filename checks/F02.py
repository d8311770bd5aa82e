import numpy as np
import vf.quiet  # noqa
import torch
from reagent.parameters import NormalizationParameters
from reagent.preprocessing.normalization import construct_action_scale_tensor
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.training.utils import rescale_actions

RULE = "a case is one random set of action dimensions and ranges with a batch of values including both ends; non-trivial = range width > 0 and values compared both ways"
REQUIRED = {"roundtrip:serving": 2000, "roundtrip:training": 2000, "ends": 600, "rescale": 2000, "refused": 60, "overridden": 60, "out_of_range": 200}


def ranges(rng, d):
    out = []
    for _ in range(d):
        lo = rng.choice([0.0, -1.0, rng.uniform(-50, 50), rng.uniform(-1, 1)])
        out.append((lo, lo + rng.choice([1.0, 2.0, 0.01, rng.uniform(0.1, 100)])))
    return out


def run(ctx):
    ctx.seed_all("f02")
    rng = ctx.sub("f")
    with ctx.part("pre-post"):
        for i in range(ctx.n(250, 4000)):
            d = rng.randint(1, 6)
            rs = ranges(rng, d)
            ids = rng.sample(range(0, 100), d)
            params = {f: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=lo, max_value=hi) for f, (lo, hi) in zip(ids, rs)}
            order = sorted(ids)
            lo = torch.tensor([params[f].min_value for f in order], dtype=torch.float64)
            hi = torch.tensor([params[f].max_value for f in order], dtype=torch.float64)
            span = hi - lo
            # float32 representation of a value near |lo| limits what any conversion can do
            tol = 4e-6 + 3e-7 * torch.max(lo.abs(), hi.abs()) / span
            with ctx.case("pre-post", rs):
                pre, post = Preprocessor(params, device=torch.device("cpu")), Postprocessor(params, use_gpu=False)
                B = rng.randint(1, 8)
                u = torch.tensor([[rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(d)] for _ in range(B)], dtype=torch.float64)
                x = (lo + u * span).float()
                m = torch.ones_like(x, dtype=torch.uint8)
                a = pre(x, m)
                ctx.expect(bool(((a <= 1) & (a >= -1)).all()), "training-range", f"{a}")
                want_a = (2 * u - 1)
                err = (a.double() - want_a).abs()
                ctx.expect(bool((err <= 2 * tol + 2e-6).all()), "to-training", f"x {x} gave {a}, want {want_a}")
                back = post(a)
                err = (back.double() - x.double()).abs() / span
                ctx.saw("roundtrip:serving", B * d)
                ctx.expect(bool((err <= 4 * tol).all()), "serving-roundtrip", f"x {x} -> {a} -> {back}")
                t = torch.tensor([[rng.choice([-1.0, 1.0, 0.0, rng.uniform(-1, 1)]) for _ in range(d)] for _ in range(B)], dtype=torch.float32)
                s = post(t)
                want_s = lo + (t.double() + 1) / 2 * span
                ctx.expect(bool((((s.double() - want_s) / span).abs() <= 3 * tol).all()), "to-serving", f"t {t} gave {s} want {want_s}")
                ctx.saw("ends", int(((t == 1) | (t == -1)).sum()))
                t2 = pre(s, torch.ones_like(s, dtype=torch.uint8))
                ctx.saw("roundtrip:training", B * d)
                ctx.expect(bool(((t2.double() - t.double()).abs() <= 8 * tol + 4e-6).all()), "training-roundtrip", f"t {t} -> {s} -> {t2}")
                # out-of-range network outputs are clamped to the ends
                o = torch.tensor([[rng.choice([-5.0, 3.0, 1.0001, -1.1]) for _ in range(d)]], dtype=torch.float32)
                so = post(o)
                want = torch.where(o > 0, hi, lo)
                ctx.saw("out_of_range", d)
                ctx.expect(bool((((so.double() - want) / span).abs() <= 4 * tol).all()), "clamped-to-ends", f"{o} gave {so} want {want}")
                # monotone
                g = torch.linspace(-1, 1, 17).unsqueeze(1).expand(17, d)
                ctx.expect(bool((post(g)[1:] - post(g)[:-1] >= -1e-6 * hi.abs().max().float()).all()), "monotone", "")
                # scale tensors with overrides
                over = {f: (rng.uniform(-9, 0), rng.uniform(1, 9)) for f in rng.sample(order, rng.randint(0, d))}
                mn, mx = construct_action_scale_tensor(params, over)
                wmn = [[over[f][0] if f in over else params[f].min_value for f in order]]
                wmx = [[over[f][1] if f in over else params[f].max_value for f in order]]
                ctx.saw("overridden", len(over))
                ctx.expect(mn.tolist() == wmn and mx.tolist() == wmx, "scale-tensors", f"{mn} {mx} want {wmn} {wmx}")
    with ctx.part("passthrough"):
        for i in range(ctx.n(30, 200)):
            ft = rng.choice(["DISCRETE_ACTION", "DO_NOT_PREPROCESS"])
            d = rng.randint(1, 4)
            with ctx.case("passthrough", (ft, d, i)):
                post = Postprocessor({f: NormalizationParameters(feature_type=ft) for f in range(d)}, use_gpu=False)
                t = torch.randn(3, d) * 3
                ctx.expect(torch.equal(post(t), t), "passthrough", ft)
            with ctx.case("mixed-refused", i):
                try:
                    Postprocessor({0: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=0.0, max_value=1.0), 1: NormalizationParameters(feature_type=rng.choice(["DISCRETE_ACTION", "CONTINUOUS"]))}, use_gpu=False)
                    ctx.expect(False, "mixed-types-accepted", "")
                except AssertionError:
                    ctx.saw("refused")
    with ctx.part("rescale"):
        for i in range(ctx.n(300, 5000)):
            d = rng.randint(1, 5)
            B = rng.randint(1, 6)
            pr, nr = ranges(rng, d), ranges(rng, d)
            if rng.random() < 0.2:
                nr[0] = (nr[0][0], nr[0][0])  # degenerate target
            dt = rng.choice([torch.float32, torch.float64])
            pmin, pmax = torch.tensor([r[0] for r in pr], dtype=dt), torch.tensor([r[1] for r in pr], dtype=dt)
            nmin, nmax = torch.tensor([r[0] for r in nr], dtype=dt), torch.tensor([r[1] for r in nr], dtype=dt)
            u = torch.tensor([[rng.choice([0.0, 1.0, rng.random()]) for _ in range(d)] for _ in range(B)], dtype=dt)
            x = torch.max(torch.min(pmin + u * (pmax - pmin), pmax), pmin)
            with ctx.case("rescale", (pr, nr)):
                x0 = x.clone()
                y = rescale_actions(x, new_min=nmin, new_max=nmax, prev_min=pmin, prev_max=pmax)
                ctx.expect(torch.equal(x, x0), "input-mutated", "")
                want = nmin.double() + (x.double() - pmin.double()) / (pmax.double() - pmin.double()) * (nmax.double() - nmin.double())
                tol = 1e-6 * (1 + want.abs()) + 1e-6 * (1 + torch.max(pmin.abs(), pmax.abs()).double()) / (pmax - pmin).double() * (nmax - nmin).double()
                ctx.saw("rescale", B * d)
                ctx.expect(y.shape == x.shape and bool(((y.double() - want).abs() <= tol).all()), "rescale-affine", f"{x} in {pr} to {nr}: {y} want {want}")
                ctx.expect(bool((y.double() >= nmin.double() - tol).all() and (y.double() <= nmax.double() + tol).all()), "rescale-in-range", f"{y}")
                if all(a < b for a, b in nr):
                    yy = torch.max(torch.min(y, nmax), nmin)
                    z = rescale_actions(yy, new_min=pmin, new_max=pmax, prev_min=nmin, prev_max=nmax)
                    tol2 = 4 * tol / (nmax - nmin).double() * (pmax - pmin).double() + 1e-5 * (1 + x.double().abs())
                    ctx.expect(bool(((z.double() - x.double()).abs() <= tol2).all()), "rescale-roundtrip", f"{x} -> {y} -> {z}")
                bad = x.clone()
                bad[rng.randrange(B), rng.randrange(d)] = 1e5
                try:
                    rescale_actions(bad, new_min=nmin, new_max=nmax, prev_min=pmin, prev_max=pmax)
                    ctx.expect(False, "out-of-range-accepted", f"{bad}")
                except AssertionError:
                    ctx.saw("refused")
