"""E03: slate distributions are probability distributions; slate metrics and estimators equal their definitions."""
import vf.quiet  # noqa
import collections
import itertools
import math
import random

import numpy as np
import torch
from reagent.ope.estimators.slate_estimators import (
    DCGSlateMetric, DMEstimator, DoublyRobustEstimator, ERRSlateMetric, FrechetDistribution, IPSEstimator, LogSample, NDCGSlateMetric, PassThruDistribution, PBMEstimator, PseudoInverseEstimator,
    RankingDistribution, Slate, SlateContext, SlateEstimatorInput, SlateItem, SlateItemFeatures, SlateItemProbabilities, SlateItems, SlateItemValues, SlateMetric, SlateQuery, SlateSlot, SlateSlotItemProbabilities,
    SlateSlots, SlateSlotValues, make_slate)
from reagent.ope.estimators.types import PredictResults, Trainer
from reagent.ope.utils import Clamper

from vf.stats import multinomial_ok

RULE = (
    "Random item-wise and slot-wise slate distributions over 1-6 items and 1-5 slots (named or numbered, with zero weights) are compared "
    "with brute-force enumeration of every ordered slate: slate probabilities, the slate space and its total, per-slot expectations and "
    "expected rewards, sampled slates against the enumerated probabilities, greedy slates, cached answers after another length or an "
    "update. Sum, DCG, NDCG and ERR are recomputed from the textbook formula for random relevances. Every slate estimator is recomputed "
    "sample by sample from its definition over random logs, with clamping, weighting, missing probabilities and recorded model training "
    "sets, and expectation over all logged slates must equal the target policy's value (unbiasedness)."
)
REQUIRED = {"slate_probabilities": 3000, "spaces": 40, "full_slates": 8, "expectations": 80, "sampled": 3000, "greedy": 20, "slotwise": 25, "metrics": 300, "keyed": 60, "estimates": 150, "unbiased": 15, "one_slot": 10}


def plackett(weights, k):
    """all ordered slates of one weight vector per slot, with probabilities"""
    n = len(weights[0])
    out = {}
    for s in itertools.permutations(range(n), k):
        p = 1.0
        for j, i in enumerate(s):
            rest = sum(max(w, 0.0) for x, w in enumerate(weights[j]) if x not in s[:j])
            p *= max(weights[j][i], 0.0) / rest if rest > 0 else 0.0
        out[s] = p
    return out


def marginals(space, k, n):
    m = np.zeros((k, n))
    for s, p in space.items():
        for j, i in enumerate(s):
            m[j, i] += p
    return m


def weights(r, n, k):
    w = [float(x) for x in np.round(r.random(n) ** 2 * 5 + 0.05, 4)]
    if n > k and r.random() < 0.4:
        # impossible items, as long as every slot can still be filled
        for i in r.permutation(n)[: int(r.integers(1, n - k + 1))]:
            w[i] = 0.0 if r.random() < 0.6 else -1.0
    return w


def slot_set(r, k, keyed):
    return SlateSlots([SlateSlot(int(x)) for x in r.permutation(20)[:k]]) if keyed else SlateSlots(k)


def item_ids(r, n, keyed):
    if not keyed:
        return [SlateItem(i) for i in range(n)]
    return [SlateItem(int(x)) if r.random() < 0.5 else SlateItem((int(x), 7)) for x in r.permutation(50)[:n]]


def fill(ids, w, keyed, how, cls=SlateItemValues, **kw):
    if keyed:
        return cls(dict(zip(ids, w)), **kw)
    return cls([w, np.array(w), torch.tensor(w)][how], **kw)


def size(r):
    n = int(r.integers(1, 7))
    k = int(r.integers(1, min(n, 5) + 1))
    return (5, 5 if r.random() < 0.5 else 4) if (n, k) == (6, 5) else (n, k)


def itemwise(ctx, r, i):
    n, k = size(r)
    if i % 4 == 0:
        k = min(n, 5)
        n = k
    ki, ks = bool(r.random() < 0.4), bool(r.random() < 0.4)
    w = weights(r, n, k)
    with ctx.case("itemwise", f"items={n} slots={k} weights={w} keyed={ki, ks}", distinct=f"i{i}"):
        ctx.saw("keyed", ki or ks)
        ctx.saw("one_slot", k == 1)
        ctx.saw("full_slates", n == k)
        ids, slots = item_ids(r, n, ki), slot_set(r, k, ks)
        dist = fill(ids, w, ki, i % 3, SlateItemProbabilities)
        space = plackett([w] * k, k)
        tests = [lambda: probabilities(ctx, dist, slots, ids, space, "item"), lambda: spaces(ctx, dist, slots, ids, space), lambda: expectations(ctx, r, dist.slot_item_expectations(slots), ids, slots, marginals(space, k, n), ki, "item")]
        for t in r.permutation(3):  # whichever question comes first
            tests[t]()
        sampled(ctx, dist, slots, ids, space, "item")
        if k > 1:
            # another slate length on the same object
            k2 = int(r.integers(1, k))
            s2 = slot_set(r, k2, ks)
            expectations(ctx, r, dist.slot_item_expectations(s2), ids, s2, marginals(plackett([w] * k2, k2), k2, n), ki, "item-shorter")
            expectations(ctx, r, dist.slot_item_expectations(slots), ids, slots, marginals(space, k, n), ki, "item-longer-again")
        # an update
        w2 = list(w)
        w2[int(np.argmax(w))] += 1.5
        dist[ids[int(np.argmax(w))]] = w2[int(np.argmax(w))]
        space2 = plackett([w2] * k, k)
        probabilities(ctx, dist, slots, ids, space2, "updated")
        spaces(ctx, dist, slots, ids, space2)
        expectations(ctx, r, dist.slot_item_expectations(slots), ids, slots, marginals(space2, k, n), ki, "updated")
        # deterministic choice
        if len(set(w2)) == len(w2):
            g = fill(ids, w2, ki, i % 3, SlateItemProbabilities, greedy=True)
            top = tuple(sorted(range(n), key=lambda x: -w2[x])[:k])
            greedy(ctx, r, g, slots, ids, {s: float(s == top) for s in space2}, top)
            space_g = list(g.slate_space(slots))
            ctx.expect(len(space_g) == 1 and list(space_g[0][0]) == [ids[x] for x in top] and space_g[0][1] == 1.0, "greedy-space", f"{space_g}")
            expectations(ctx, r, g.slot_item_expectations(slots), ids, slots, np.eye(n)[list(top)], ki, "greedy")


def as_slate(slots, ids, s):
    return make_slate(slots, [ids[x] for x in s])


def probabilities(ctx, dist, slots, ids, space, mech):
    for s, p in space.items():
        ctx.saw("slate_probabilities")
        ctx.close(dist.slate_probability(as_slate(slots, ids, s)), p, mech + "-slate-probability", rtol=1e-5, atol=1e-10)


def spaces(ctx, dist, slots, ids, space):
    ctx.saw("spaces")
    got = collections.Counter()
    for items, p in dist.slate_space(slots):
        s = tuple(ids.index(x) for x in items)
        ctx.expect(s not in got, "space-repeats", f"{s}")
        got[s] += p
    ctx.close([got.get(s, 0.0) for s in space], list(space.values()), "slate-space", rtol=1e-5, atol=1e-10)
    ctx.expect(set(got) <= set(space), "slate-space-foreign", f"{set(got) - set(space)}")
    ctx.close(sum(got.values()), 1.0, "slate-space-total", rtol=1e-6)
    if len(space) > 1:
        some = list(dist.slate_space(slots, max_size=max(1, len(space) // 2)))
        ctx.expect(len(some) <= max(1, len(space) // 2), "slate-space-limit", f"{len(some)}")


def expectations(ctx, r, e, ids, slots, want, keyed, mech):
    ctx.saw("expectations")
    k, n = want.shape
    t = e.values_tensor()
    if not ctx.expect(tuple(t.shape) == (k, n), mech + "-expectation-shape", f"{t.shape} want {(k, n)}"):
        return
    ctx.close(t, want, mech + "-expectations", rtol=1e-5, atol=1e-8)
    for j, s in enumerate(slots):
        ctx.close([e[s][x] for x in ids], want[j], mech + "-slot-expectations", rtol=1e-5, atol=1e-8)
    rew = [float(x) for x in r.normal(size=n)]
    v = e.expected_rewards(fill(ids, rew, keyed, 0))
    ctx.require(len(v) == k, mech + "-expected-rewards-shape", f"{v}")
    ctx.close([v[s] for s in slots], want @ np.array(rew), mech + "-expected-rewards", rtol=1e-5, atol=1e-6)


def sampled(ctx, dist, slots, ids, space, mech, n=120):
    counts = collections.Counter()
    for _ in range(n):
        s = dist.sample_slate(slots)
        ctx.require(len(s) == len(slots) and [a for a, _ in s] == list(slots), mech + "-sampled-slots", f"{s}")
        key = tuple(ids.index(x) for _, x in s)
        ctx.require(len(set(key)) == len(key), mech + "-sampled-repeats", f"{key}")
        counts[key] += 1
    ctx.saw("sampled", n)
    keys = list(space)
    ok, why = multinomial_ok([counts[x] for x in keys], [space[x] for x in keys])
    ctx.expect(ok, mech + "-sample-frequencies", why)
    # pooled by slot: sharper than single slates
    m, k, nn = marginals(space, len(slots), len(ids)), len(slots), len(ids)
    for j in range(k):
        c = [sum(v for x, v in counts.items() if x[j] == a) for a in range(nn)]
        ok, why = multinomial_ok(c, [min(max(x, 0.0), 1.0) if x > 1e-12 else 0.0 for x in m[j]])
        ctx.expect(ok, mech + "-slot-frequencies", f"slot {j}: {why}")


def greedy(ctx, r, g, slots, ids, space, top):
    ctx.saw("greedy")
    s = g.sample_slate(slots)
    ctx.expect([x for _, x in s] == [ids[x] for x in top], "greedy-slate", f"{s} want {top}")
    for x, p in space.items():
        ctx.expect(g.slate_probability(as_slate(slots, ids, x)) == p, "greedy-probability", f"{x}: {p}")


def slotwise(ctx, r, i):
    n, k = size(r)
    if i % 4 == 0:
        k = n = min(n, 5)
    ki, ks = bool(r.random() < 0.4), bool(r.random() < 0.4)
    W = [[float(x) for x in np.round(r.random(n) ** 2 * 5 + 0.05, 4)] for _ in range(k)]
    if i % 3 == 0:
        W = [list(W[0]) for _ in range(k)]
    with ctx.case("slotwise", f"items={n} slots={k} W={W} keyed={ki, ks}", distinct=f"w{i}"):
        ctx.saw("slotwise")
        ctx.saw("keyed", ki or ks)
        ids, slots = item_ids(r, n, ki), slot_set(r, k, ks)

        def make(W, **kw):
            v = [fill(ids, w, ki, j % 3) for j, w in enumerate(W)]
            return SlateSlotItemProbabilities(dict(zip(slots, v)) if ks else v, **kw)

        dist, space = make(W), plackett(W, k)
        probabilities(ctx, dist, slots, ids, space, "slot")
        sampled(ctx, dist, slots, ids, space, "slot")
        want = marginals(space, k, n)
        e = dist.slot_item_expectations()
        t = e.values_tensor().numpy()
        differ, own = any(w != W[0] for w in W), own_weights(W)
        # with full slates that formula divides by what rounding leaves of 1 - 1: there only the first row can be compared
        known = t.shape == want.shape and differ and not np.allclose(t, want, rtol=1e-5, atol=1e-8) and (np.allclose(t, own, rtol=1e-4, atol=1e-7) or n == k and np.allclose(t[0], want[0], rtol=1e-5))
        if known:
            # the exact calculation weighs the items of the earlier slots by this slot's probabilities
            ctx.expect(False, "slot-expectations-weigh-earlier-slots-by-own", f"{t.tolist()} want {want.tolist()}")
            for j, s in enumerate(slots):
                ctx.close([e[s][x] for x in ids], t[j], "slot-slot-expectations", rtol=1e-5, atol=1e-8)
        else:
            expectations(ctx, r, e, ids, slots, want, ki, "slot")
        if k * n <= 12:
            d2 = make(W)
            m = 400
            d2._sample_expectations(m)
            t = d2.slot_item_expectations().values_tensor().numpy() * m
            for j in range(k):
                ok, why = multinomial_ok([int(round(x)) for x in t[j]], [x if x > 1e-12 else 0.0 for x in want[j]])
                ctx.expect(ok, "slot-sampled-expectations", why)
        flat = [x for w in W for x in w]
        g = make(W, greedy=True)
        top, used = [], set()
        for w in W:
            top.append(max((x for x in range(n) if x not in used), key=lambda x: w[x]))
            used.add(top[-1])
        if all(len(set(w)) == n for w in W):
            greedy(ctx, r, g, slots, ids, {s: float(s == tuple(top)) for s in space}, tuple(top))
            expectations(ctx, r, g.slot_item_expectations(), ids, slots, np.eye(n)[top], ki, "slot-greedy")
        del flat


def own_weights(W):
    """per-slot expectations if a slot's own probabilities decided all the earlier slots... one slot late"""
    k, n = len(W), len(W[0])
    P = [np.array(w) / sum(w) for w in W]
    out = np.zeros((k, n))
    out[0] = P[0]
    buf = [(frozenset(), 1.0, 0.0)]
    for j in range(1, k):
        nxt = []
        for b0, b1, b2 in buf:
            for i in range(n):
                if i not in b0 and b2 + P[j][i] < 1.0:
                    nxt.append((b0 | {i}, b1 * P[j][i] / (1.0 - b2), b2 + P[j][i]))
        for i in range(n):
            out[j, i] = sum(b1 / (1.0 - b2) for b0, b1, b2 in nxt if i not in b0) * P[j][i]
        buf = nxt
    return out


def big(ctx, r, i):
    """slates too long to enumerate: expectations by sampling"""
    n, k = (8, 8) if i == 0 else (9, 8)
    w = [float(x) for x in r.random(n) + 0.1]
    with ctx.case("big", f"{w}", distinct=f"b{i}"):
        d = SlateItemProbabilities(w)
        t = d.slot_item_expectations(SlateSlots(k)).values_tensor().numpy()
        ctx.close(t.sum(1), np.ones(k), "sampled-expectations-total", rtol=1e-9)
        space2 = marginals(plackett([w] * 2, 2), 2, n)
        m = 20000 * n
        for j in range(2):
            ok, why = multinomial_ok([int(round(x * m)) for x in t[j]], space2[j])
            ctx.expect(ok, "sampled-expectations", why)
        if n == k:
            ctx.close(t.sum(0), np.ones(n), "sampled-expectations-items", rtol=1e-9)


def metrics(ctx, r, i):
    k = int(r.integers(1, 13))
    n = k + int(r.integers(0, 5))
    ki, ks = bool(r.random() < 0.4), bool(r.random() < 0.4)
    grades = bool(r.random() < 0.5)
    rel = [float(x) for x in (r.integers(0, 5, size=n) if grades else np.round(r.random(n) * 4, 3))]
    if r.random() < 0.1:
        rel = [0.0] * n
    with ctx.case("metrics", f"slots={k} rel={rel} keyed={ki, ks}", distinct=f"m{i}"):
        ids, slots = item_ids(r, n, ki), slot_set(r, k, ks)
        items = fill(ids, rel, ki, i % 3)
        order = [int(x) for x in r.permutation(n)[:k]]
        slate = as_slate(slots, ids, order)
        ctx.saw("keyed", ki or ks)
        v = slate.slot_values(items)
        ctx.close([v[s] for s in slots], [rel[x] for x in order], "slot-values")
        feats = torch.tensor(r.normal(size=(n, 3)))
        f = slate.slot_features(SlateItemFeatures(dict(zip(ids, feats)) if ki else feats))
        ctx.close(f.features, feats[order], "slot-features")
        oh = slate.one_hots(items.items)
        ctx.close(oh, np.eye(n)[order], "one-hots")
        ctx.expect(list(slate.items) == [ids[x] for x in order] and list(slate.slots) == list(slots), "slate-contents", f"{slate}")
        g = np.array([rel[x] for x in order])
        disc = 1 / np.log2(np.arange(2, k + 2))
        ctx.saw("metrics", 4)
        ctx.close(SlateMetric()(slots, v), g.sum(), "sum", rtol=1e-5)
        dcg = ((2 ** g - 1) * disc).sum()
        ctx.close(DCGSlateMetric()(slots, v), dcg, "dcg", rtol=1e-5)
        m = NDCGSlateMetric(items)
        for _ in range(2):  # the second answer comes from the cached ideal
            best = sorted(rel, reverse=True)[:k]
            ideal = ((2 ** np.array(best) - 1) * disc).sum()
            ctx.close(m(slots, v), dcg / ideal if ideal > 0 else 0.0, "ndcg", rtol=1e-5, atol=1e-9)
        if k > 1:
            k2 = int(r.integers(1, k))
            s2 = slot_set(r, k2, ks)
            v2 = as_slate(s2, ids, order).slot_values(items)
            ideal = ((2 ** np.array(best[:k2]) - 1) * disc[:k2]).sum()
            ctx.close(m(s2, v2), ((2 ** g[:k2] - 1) * disc[:k2]).sum() / ideal if ideal > 0 else 0.0, "ndcg-other-length", rtol=1e-5, atol=1e-9)
        for top in {float(max(max(rel), 1.0)), float(r.integers(1, 6))}:
            stop = (2 ** np.clip(g, 0, top) - 1) / 2 ** top
            err = sum(stop[j] * np.prod(1 - stop[:j]) / (j + 1) for j in range(k))
            got = ERRSlateMetric(top)(slots, v)
            ctx.close(got, err, "err", rtol=1e-5, atol=1e-9)
            ctx.expect(-1e-9 <= got <= 1 + 1e-9, "err-range", f"{got}")
        # given weights and values
        w = [float(x) for x in r.normal(size=k)]
        ctx.close(SlateMetric().calculate_reward(slots, v, None, SlateSlotValues(dict(zip(slots, w)) if ks else w)), (g * np.array(w)).sum(), "weighted", rtol=1e-5, atol=1e-5)
        # reward distributions
        base = [float(x) for x in np.round(r.permutation(n) + 1 + r.random(n) * 0.5, 3)]
        b = fill(ids, base, ki, i % 3)
        a = float(r.choice([0.5, 1.0, 1.5, 2.0]))
        rank = np.argsort(np.argsort(-np.array(base))) + 1
        for d, want in ((PassThruDistribution(), base), (FrechetDistribution(a), np.array(base) ** a), (RankingDistribution(a), 2.0 ** -np.floor(a * np.log2(rank))), (RankingDistribution(-1.0), base)):
            for det in (False, True):
                d._deterministic = det
                p = d(b)
                ctx.close([p[x] for x in ids], want, "reward-distribution", rtol=1e-6)
                ctx.expect(p.is_deterministic is det, "reward-distribution-greedy", f"{det}")
        ctx.close([b[x] for x in ids], base, "rewards-kept")


class Fake(Trainer):
    """remembers what it was trained on; predicts a fixed function of the features"""

    def __init__(self, c):
        super().__init__()
        self.c, self.data, self.resets = c, [], 0

    @property
    def name(self):
        return "fake"

    def reset(self):
        super().reset()
        self.resets += 1

    def train(self, data, iterations=1, num_samples=0):
        self.data.append(data)
        self._model = 1

    def predict(self, x, device=None):
        return PredictResults(None, self.f(x))

    def f(self, x):
        w = torch.arange(1, x.shape[1] + 1).double() * self.c
        return torch.sin(x.double() * w).sum(1)

    def score(self, x, y, weight=None):
        return 0.0


def world(r, n, k, ks):
    return dict(slots=slot_set(r, k, ks), wl=weights(r, n, n)[:], wt=weights(r, n, k))


def estimators(ctx, r, i):
    n = int(r.integers(2, 5))
    k = int(r.integers(1, min(n, 3) + 1))
    ki, ks = bool(r.random() < 0.3), bool(r.random() < 0.3)
    count = int(r.integers(1, 12))
    slotted = i % 3 == 0
    with ctx.case("estimators", f"items={n} slots={k} samples={count} keyed={ki, ks} slotted={slotted}", distinct=f"e{i}"):
        ids = item_ids(r, n, ki)
        samples, refs = [], []
        for j in range(count):
            slots = slot_set(r, k, ks)
            wl, wt = weights(r, n, k), weights(r, n, k)
            if r.random() < 0.15:
                wt = list(wl)
            det = bool(r.random() < 0.2)
            tspace = plackett([wt] * k, k)
            if det and len(set(wt)) == n:
                top = tuple(sorted(range(n), key=lambda x: -wt[x])[:k])
                tspace = {s: float(s == top) for s in tspace}
            else:
                det = False
            tgt = dict(_tgt_item_probabilities=fill(ids, wt, ki, j % 3, SlateItemProbabilities, greedy=det))
            if slotted:
                W = [[float(x) for x in r.random(n) + 0.1] for _ in range(min(k, 2))] * 2
                W = W[:k]
                lspace = plackett(W, k)
                v = [fill(ids, w, ki, 0) for w in W]
                log = dict(_log_slot_item_probabilities=SlateSlotItemProbabilities(dict(zip(slots, v)) if ks else v))
            else:
                lspace = plackett([wl] * k, k)
                log = dict(_log_item_probabilities=fill(ids, wl, ki, j % 3, SlateItemProbabilities))
            keys = list(lspace)
            s = keys[int(r.choice(len(keys), p=np.array(list(lspace.values())) / sum(lspace.values())))] if r.random() < 0.85 else keys[int(r.integers(len(keys)))]
            ref = dict(s=s, lp=lspace[s], tp=tspace[s], lspace=lspace, tspace=tspace, r=float(r.normal() * 2 + 1), gt=float(r.normal()), W=slotted)
            if r.random() < 0.2:
                ref["lp"] = log["_log_slate_probability"] = float(r.choice([0.0, 0.25, 0.7]))
            if r.random() < 0.2:
                ref["tp"] = tgt["_tgt_slate_probability"] = float(r.choice([0.0, 0.25, 0.5]))
            feats = torch.tensor(r.normal(size=(n, 2)))
            ref["x"], ref["feats"] = feats[list(s)].flatten(), feats
            sw, sp = (np.round(r.random(k) + 0.1, 3) if r.random() < 0.5 else None), (np.round(r.random(k) + 0.1, 3) if r.random() < 0.5 else None)
            ref["theta"] = (np.ones(k) if sw is None else sw) * (np.ones(k) if sp is None else sp)
            col = lambda x: None if x is None else SlateSlotValues(dict(zip(slots, [float(y) for y in x])) if ks else [float(y) for y in x])  # noqa
            samples.append(LogSample(SlateContext(SlateQuery((j,)), slots), SlateMetric(), as_slate(slots, ids, s), ref["r"], ground_truth_reward=ref["gt"], slot_weights=col(sw), slot_probabilities=col(sp),
                                     item_features=SlateItemFeatures(dict(zip(ids, feats)) if ki else feats), **log, **tgt))
            refs.append(ref)
        inp = SlateEstimatorInput(samples)
        inp.validate()
        clamp = [None, (0.0, 2.0), (0.5, 1.5)][int(r.integers(0, 3))]
        cut = (lambda x: x) if clamp is None else (lambda x: min(max(x, clamp[0]), clamp[1]))  # noqa
        cl = lambda: None if clamp is None else Clamper(*clamp)  # noqa

        def ratio(t, l):
            return 1.0 if t == l or abs(t - l) <= 1e-12 * l else 0.0 if t <= 0 else None if l <= 0 else cut(t / l)

        ips = [ratio(x["tp"], x["lp"]) for x in refs]
        for wd in (False, True):
            if not wd or usable(ips):
                summarise(ctx, IPSEstimator(cl(), weighted=wd).evaluate(inp), [(x, w, None if w is None else w * x["r"]) for x, w in zip(refs, ips)], wd, "ips")
        # direct and doubly robust, over the part the model was not trained on
        share = float(r.choice([0.0, 0.3, 0.5, 1.0]))
        cutoff = int(count * share) if 0 < share < 1 else count
        if cutoff >= 1:
            t = Fake(float(r.random() + 0.3))
            used = list(range(cutoff, count)) or list(range(count))
            model = lambda x, s: float(t.f(x["feats"][list(s)].flatten().reshape(1, -1))[0])  # noqa
            dm = {j: sum(p * model(refs[j], s) for s, p in refs[j]["tspace"].items()) for j in used}
            res = DMEstimator(t, share).evaluate(inp)
            summarise(ctx, res, [(refs[j], 1.0, dm[j]) for j in used], False, "dm")
            ctx.require(len(t.data) == 1 and t.resets == 1, "model-trained-once", f"{len(t.data)} {t.resets}")
            d = t.data[0]
            ctx.close(d.train_x, torch.stack([x["x"] for x in refs[:cutoff]]), "training-features")
            ctx.close(d.train_y, [x["r"] for x in refs[:cutoff]], "training-rewards")
            ctx.close(d.validation_x, torch.stack([refs[j]["x"] for j in used]), "validation-features")
            ctx.close(d.validation_y, [refs[j]["r"] for j in used], "validation-rewards")
            summarise(ctx, DoublyRobustEstimator(Fake(t.c), share, cl(), weighted=False).evaluate(inp), [(refs[j], ips[j], None if ips[j] is None else dm[j] + ips[j] * (refs[j]["r"] - model(refs[j], refs[j]["s"]))) for j in used], False, "dr")
        # without a model doubly robust is importance sampling
        summarise(ctx, DoublyRobustEstimator(None, 0.5, cl(), weighted=False).evaluate(inp), [(x, w, None if w is None else w * x["r"]) for x, w in zip(refs, ips)], False, "dr-without-model")
        ctx.expect(DMEstimator(None, 0.5).evaluate(inp) is None, "dm-without-model", "")
        # position-based
        def marg(x, side):
            if side == "l" and x["W"]:
                return None
            return marginals(x[side + "space"], k, n)

        pbm, pim = [], []
        for x, smp in zip(refs, samples):
            lm = marginals(x["lspace"], k, n) if not x["W"] else smp.log_slot_item_expectations(smp.context.slots).values_tensor().numpy()
            tm = marginals(x["tspace"], k, n)
            at = (np.arange(k), list(x["s"]))
            nu, de = float((tm[at] * x["theta"]).sum()), float((lm[at] * x["theta"]).sum())
            pbm.append(ratio(nu, de) if abs(nu - de) > 1e-12 else 1.0)
            one = np.zeros((k, n))
            one[at] = 1
            G = sum(p * np.outer(oh(s, k, n), oh(s, k, n)) for s, p in x["lspace"].items())
            pim.append((cut(float(tm.flatten() @ np.linalg.pinv(G, rcond=1e-9) @ one.flatten())), cut(float((tm * lm).sum() * (lm * one).sum() / (lm * lm).sum() ** 2))))
        for wd in (False, True):
            if not wd or usable(pbm):
                summarise(ctx, PBMEstimator(cl(), weighted=wd).evaluate(inp), [(x, w, None if w is None else w * x["r"]) for x, w in zip(refs, pbm)], wd, "pbm")
            if wd and not (usable([a for a, _ in pim]) and usable([b for _, b in pim])):
                continue
            res = PseudoInverseEstimator(cl(), weighted=wd).evaluate(inp)
            both = [[(x, w[c], w[c] * x["r"]) for x, w in zip(refs, pim)] for c in (0, 1)]
            fits = [agrees(res, rows, wd) for rows in both]
            if not fits[0] and fits[1]:
                ctx.expect(False, "pseudo-inverse-of-the-product-of-marginals", f"{res.estimated_reward} want {mean_of(both[0], wd)}")
            summarise(ctx, res, both[1] if fits[1] and not fits[0] else both[0], wd, "pseudo-inverse", rtol=1e-3)
        unbiased(ctx, r, ids, n, k, ki, ks)


def usable(ws):
    """a weighted mean exists"""
    ws = [w for w in ws if w is not None]
    return not ws or abs(sum(ws)) > 1e-2


def agrees(res, rows, weighted):
    d, want = np.mean([w for _, w, _ in rows]), mean_of(rows, weighted)
    near = lambda a, b: math.isclose(a, b, rel_tol=1e-3, abs_tol=1e-5)  # noqa
    return res is not None and want is not None and near(res.estimated_reward, want) and (not weighted or near(res.estimated_weight, d))


def oh(s, k, n):
    x = np.zeros((k, n))
    x[np.arange(k), list(s)] = 1
    return x.flatten()


def mean_of(rows, weighted):
    rows = [x for x in rows if x[1] is not None]
    if not rows:
        return None
    d = sum(w for _, w, _ in rows)
    if weighted:
        return sum(t for _, _, t in rows) / d if abs(d) > 1e-6 else None
    return sum(t for _, _, t in rows) / len(rows)


def summarise(ctx, res, rows, weighted, mech, rtol=1e-5):
    live = [x for x in rows if x[1] is not None]
    if weighted and live and abs(sum(w for _, w, _ in live)) < 1e-6:
        return
    ctx.saw("estimates")
    if not live:
        ctx.expect(res is None or res.estimated_weight == 0 or math.isnan(res.estimated_reward), mech + "-nothing-usable", f"{res}")
        return
    ctx.require(res is not None, mech + "-missing", f"{live}")
    ctx.close(res.estimated_reward, mean_of(rows, weighted), mech + "-estimate", rtol=rtol, atol=1e-6)
    ctx.close(res.log_reward, np.mean([x["r"] for x, _, _ in live]), mech + "-logged", rtol=1e-5, atol=1e-6)
    ctx.close(res.ground_truth_reward, np.mean([x["gt"] for x, _, _ in live]), mech + "-ground-truth", rtol=1e-5, atol=1e-6)
    if weighted:
        ctx.close(res.estimated_weight, np.mean([w for _, w, _ in live]), mech + "-mean-weight", rtol=rtol, atol=1e-7)
    else:
        ctx.expect(res.estimated_weight == len(live), mech + "-count", f"{res.estimated_weight} want {len(live)}")


def unbiased(ctx, r, ids, n, k, ki, ks):
    """expectation over every logged slate equals the target policy's value"""
    ctx.saw("unbiased")
    slots = slot_set(r, k, ks)
    wl, wt = [float(x) for x in r.random(n) + 0.1], weights(r, n, k)
    lspace, tspace = plackett([wl] * k, k), plackett([wt] * k, k)
    value = {s: float(r.normal()) for s in lspace}
    truth = sum(p * value[s] for s, p in tspace.items())
    feats = torch.tensor(r.normal(size=(n, 2)))
    for name, make in (("ips", lambda: IPSEstimator(weighted=False)), ("dr", lambda: DoublyRobustEstimator(Fake(0.7), 1.0, weighted=False))):
        tot = 0.0
        for s, p in lspace.items():
            smp = LogSample(SlateContext(SlateQuery((1,)), slots), SlateMetric(), as_slate(slots, ids, s), value[s], _log_item_probabilities=fill(ids, wl, ki, 0, SlateItemProbabilities),
                            _tgt_item_probabilities=fill(ids, wt, ki, 0, SlateItemProbabilities), item_features=SlateItemFeatures(dict(zip(ids, feats)) if ki else feats))
            tot += p * make().evaluate(SlateEstimatorInput([smp])).estimated_reward
        ctx.close(tot, truth, f"unbiased-{name}", rtol=1e-5, atol=1e-7)


def run(ctx):
    for name, f, q, t in [("itemwise", itemwise, 60, 900), ("slotwise", slotwise, 50, 700), ("metrics", metrics, 120, 2500), ("estimators", estimators, 45, 700), ("big", big, 1, 2)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            random.seed(ctx.seed)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
