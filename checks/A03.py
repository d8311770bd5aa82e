"""A03: stochastic ranking samplers yield permutations with Plackett-Luce odds."""
import vf.quiet  # noqa
import itertools

import numpy as np
import torch
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.samplers.frechet import FrechetSort

from vf.stats import multinomial_ok

RULE = (
    "Random score rows (1-5 items, raw or log scores, shapes 0.3-8, ties and huge spreads) are ranked by Frechet-sort with "
    "every combination of top-k and equivalence length. Every permutation of the items is enumerated and its log "
    "probability compared with the float64 product of successive softmax choices up to the cut-off; permutations sharing "
    "the prefix must get the same value and the distinct prefixes must sum to one. Padded shorter slates are compared with "
    "ranking the present items only. Sampled slates must be duplicate-free, of the declared length, row-aligned with the "
    "reported log probability, and their prefix frequencies pass a 1e-9 multinomial bound."
)
REQUIRED = {"perms": 3000, "sums": 100, "samples": 400, "tallies": 20, "padded": 60, "wide_batches": 30, "equivalents": 500, "topk": 40, "gradients": 40}


def pl(ls, order, upto):
    """log prob (float64) of picking order's first `upto` items one after another from the items in order."""
    s = ls[list(order)]
    out = 0.0
    for i in range(min(upto, len(order))):
        r = s[i:]
        m = r.max()
        out += s[i] - m - np.log(np.exp(r - m).sum())
    return out


def make(rng, n):
    shape = float(rng.choice([0.3, 1.0, 2.0, 8.0]))
    log = rng.random() < 0.5
    topk = int(rng.integers(1, n + 1)) if rng.random() < 0.7 else None
    eq = None
    if rng.random() < 0.5:
        eq = int(rng.integers(1, (topk or n) + 1))
    s = FrechetSort(shape=shape, topk=topk, equiv_len=eq, log_scores=log)
    upto = eq if eq is not None else (topk if topk is not None else n)
    return s, shape, log, topk, upto, f"n={n} shape={shape} log={log} topk={topk} equiv={eq}"


def scores(rng, b, n, log):
    x = rng.normal(size=(b, n)) * rng.choice([0.1, 1.0, 3.0])
    if rng.random() < 0.2:
        x = np.round(x)
    x = x.astype(np.float32)
    t = torch.tensor(x if log else np.exp(x))
    return t, (t.double() if log else t.double().log()).numpy()


def exact(ctx, rng, i):
    n, b = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    f, shape, log, topk, upto, desc = make(rng, n)
    with ctx.case("exact", desc, distinct=f"e{i}"):
        t, ls = scores(rng, b, n, log)
        perms = list(itertools.permutations(range(n)))
        act = torch.tensor(perms)
        for r in range(b):
            row = t[r:r + 1].repeat(len(perms), 1).requires_grad_(r == 0)
            got = f.log_prob(row, act)
            want = np.array([pl(ls[r] * shape, p, upto) for p in perms])
            ctx.saw("perms", len(perms))
            ctx.close(got, want, "order-log-prob", rtol=1e-4, atol=2e-4 * shape)
            first = {}
            g = got.detach().double().numpy()
            for k, p in enumerate(perms):
                if p[:upto] in first:
                    ctx.saw("equivalents")
                    ctx.expect(abs(first[p[:upto]] - g[k]) < 1e-3 * shape, "equivalent-orders", f"{p} cut at {upto}: {first[p[:upto]]} vs {g[k]}")
                else:
                    first[p[:upto]] = g[k]
            ctx.saw("sums")
            ctx.expect(abs(sum(np.exp(v) for v in first.values()) - 1) < 1e-3, "sums-to-one", f"{sum(np.exp(v) for v in first.values())}")
            if r == 0 and n > 1:
                ctx.saw("gradients")
                ctx.require(got.requires_grad, "differentiable", "log_prob carries no gradient")
                gr = torch.autograd.grad(got[0], row)[0][0].double().numpy()
                eps, num = 1e-5, []
                base = ls[0] if log else np.exp(ls[0])
                for j in range(n):
                    up, dn = base.copy(), base.copy()
                    h = eps * max(1.0, abs(base[j])) if log else eps * base[j]
                    up[j] += h
                    dn[j] -= h
                    if not log:
                        up, dn = np.log(up), np.log(dn)
                    num.append((pl(up * shape, perms[0], upto) - pl(dn * shape, perms[0], upto)) / (2 * h))
                ctx.close(gr, num, "gradient", rtol=2e-2, atol=1e-2 * max(1, np.abs(num).max()))
        # all rows in one call, different orders: aligned by row
        pick = [perms[int(rng.integers(len(perms)))] for _ in range(b)]
        ctx.close(f.log_prob(t, torch.tensor(pick)), [pl(ls[r] * shape, pick[r], upto) for r in range(b)], "batch-rows", rtol=1e-4, atol=2e-4 * shape)
        # unbatched call
        ctx.close(f.log_prob(t[0], torch.tensor(pick[0])).reshape(-1), [pl(ls[0] * shape, pick[0], upto)], "unbatched", rtol=1e-4, atol=2e-4 * shape)


def padded(ctx, rng, i):
    n = int(rng.integers(2, 7))
    f, shape, log, topk, upto, desc = make(rng, n)
    b = int(rng.integers(1, 5))
    with ctx.case("padded", desc, distinct=f"p{i}"):
        t, ls = scores(rng, b, n, log)
        acts, want = [], []
        for r in range(b):
            k = int(rng.integers(1, n + 1))
            o = [int(x) for x in rng.permutation(n)[:k]]
            acts.append(o + [n] * (n - k))
            want.append(pl(ls[r] * shape, o, upto))
        ctx.saw("padded", b)
        ctx.close(f.log_prob(t, torch.tensor(acts)), want, "padded-log-prob", rtol=1e-4, atol=2e-4 * shape)
        for m, err in ((n + 1, ValueError), (n - 1, NotImplementedError)):
            try:
                f.log_prob(t, torch.zeros(b, m, dtype=torch.long))
                ctx.expect(False, "length-refused", f"slate of {m} accepted for {n} scores")
            except err:
                pass


def sample(ctx, rng, i):
    n = int(rng.integers(1, 7))
    f, shape, log, topk, upto, desc = make(rng, n)
    b = int(rng.choice([1, 2, 5, 17]))
    with ctx.case("sample", f"{desc} b={b}", distinct=f"s{i}"):
        t, ls = scores(rng, b, n, log)
        keep = t.clone()
        o = f.sample_action(t)
        ctx.saw("samples", b)
        k = topk if topk is not None else n
        if topk is not None and b > topk:
            ctx.saw("wide_batches")
        ctx.require(tuple(o.action.shape) == (b, k), "slate-shape", f"{tuple(o.action.shape)} want {(b, k)}")
        ctx.expect(torch.equal(keep, t), "scores-mutated", "")
        a = o.action.numpy()
        for r in range(b):
            ctx.expect(len(set(a[r])) == k and a[r].min() >= 0 and a[r].max() < n, "distinct-positions", f"{a[r]}")
        # the reported probability is that of the returned prefix among all n items
        want = []
        for r in range(b):
            rest = [j for j in range(n) if j not in set(a[r])]
            want.append(pl(ls[r] * shape, list(a[r]) + rest, upto))
        ctx.require(tuple(o.log_prob.shape) == (b,), "log-prob-shape", f"{o.log_prob.shape}")
        ctx.close(o.log_prob, want, "reported-log-prob", rtol=1e-4, atol=2e-4 * shape)


def tally(ctx, rng, i):
    n = int(rng.integers(2, 5))
    f, shape, log, topk, upto, desc = make(rng, n)
    with ctx.case("tally", desc, distinct=f"y{i}"):
        t, ls = scores(rng, 1, n, log)
        N = 4000
        a = f.sample_action(t.repeat(N, 1)).action.numpy()
        k = topk if topk is not None else n
        ctx.require(a.shape == (N, k), "slate-shape", f"{a.shape}")
        keys = list(itertools.permutations(range(n), k))
        cnt = {p: 0 for p in keys}
        for row in a:
            cnt[tuple(int(x) for x in row)] += 1
        pr = [np.exp(pl(ls[0] * shape, list(p) + [j for j in range(n) if j not in p], k)) for p in keys]
        ctx.saw("tallies")
        ok, why = multinomial_ok([cnt[p] for p in keys], pr)
        ctx.expect(ok, "order-frequency", why)


def topk(ctx, rng, i):
    n, b = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    k = int(rng.integers(1, n + 1))
    with ctx.case("topk", f"n={n} k={k} b={b}", distinct=f"t{i}"):
        x = rng.permutation(n * b).reshape(b, n).astype(np.float32)
        a = TopKSampler(k).sample_action(torch.tensor(x)).action.numpy()
        ctx.saw("topk", b)
        ctx.expect(np.array_equal(a, np.argsort(-x, 1)[:, :k]), "topk-order", f"{a} of {x}")


def refuse(ctx):
    with ctx.case("refuse", "equiv_len > topk"):
        try:
            FrechetSort(topk=2, equiv_len=3)
            ctx.expect(False, "equiv-len-refused", "")
        except ValueError:
            pass
        try:
            FrechetSort().sample_action(torch.ones(3))
            ctx.expect(False, "unbatched-refused", "")
        except AssertionError:
            pass


def run(ctx):
    refuse(ctx)
    for name, f, q, t in [("exact", exact, 120, 2000), ("padded", padded, 80, 1000), ("sample", sample, 200, 3000),
                          ("tally", tally, 50, 600), ("topk", topk, 40, 300)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
