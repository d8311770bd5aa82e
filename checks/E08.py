"""E08: OPE value maps, distributions and result collections reflect exactly what was put in."""
import vf.quiet  # noqa
import math

import numpy as np
import torch
from reagent.ope.estimators.contextual_bandits_estimators import ActionRewards
from reagent.ope.estimators.estimator import Estimator, EstimatorResult, EstimatorResults, Evaluator, ResultDiffs
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, TypeWrapper
from reagent.ope.utils import Clamper, LRUCache, RunningAverage, convert_to_one_hots

from vf.stats import multinomial_ok

RULE = (
    "Random histories of set, replace, sort, greedy, probability, iterate and sample operations run against value maps built "
    "from lists, arrays, tensors and mappings, beside a plain dictionary; every answer is compared with one computed from the "
    "dictionary's current contents, and the original of each replace must be unchanged. Action spaces fill distributions "
    "from short, long and partial inputs. Running averages, clampers and caches follow reference implementations over random "
    "streams with NaN and infinities. Result collections and the evaluator (serial, and with 1-3 worker processes) must report "
    "each experiment's estimate exactly once under its estimator, with no-result estimates left out."
)
REQUIRED = {"ops": 1000, "replaced": 150, "sorts": 200, "probabilities": 300, "samples": 50, "fills": 150, "averages": 100, "cache_ops": 500, "evaluators": 6, "parallel": 4, "results": 40, "wrappers": 200}


def build(rng, ref, keyed):
    vals = list(ref.values())
    if keyed:
        return {k: v for k, v in ref.items()}
    return [vals, np.array(vals), torch.tensor(vals, dtype=torch.float64), torch.tensor(vals, dtype=torch.float64).float().double(), tuple(vals)][int(rng.integers(5))]


def value(rng):
    return float(np.float32(rng.choice([0.0, 1.0, -2.0, rng.normal() * 3, rng.random()])))


def key(keyed, k):
    return k if keyed else int(k.value)


def check_all(ctx, rng, v, ref, keyed):
    ks = list(ref)
    ctx.saw("ops")
    ctx.expect(len(v) == len(ref), "length", f"{len(v)} {len(ref)}")
    order = list(rng.permutation(6))
    for o in order:
        if o == 0:
            got = [(k, float(x)) for k, x in v]
            ctx.expect(sorted(got, key=lambda t: repr(t[0])) == sorted(ref.items(), key=lambda t: repr(t[0])), "iterate", f"{got} want {ref}")
        elif o == 1:
            for k in ks:
                ctx.expect(float(v[k]) == ref[k], "get", f"{k}: {v[k]} want {ref[k]}")
                ctx.expect(list(v.keys)[v.index_of(k)] == k, "index-of", f"{k}")
            ctx.expect(np.allclose(v.values.double().numpy(), list(ref.values())), "values", "")
        elif o in (2, 3):
            desc = bool(o == 2)
            got_k, got_v = v.sort(descending=desc)
            ctx.saw("sorts")
            ctx.expect(sorted(map(repr, got_k)) == sorted(map(repr, ks)), "sort-keys", f"{got_k}")
            ctx.expect([ref[k] for k in got_k] == [float(x) for x in got_v], "sort-pairs", f"{got_k} {got_v} {ref}")
            want = sorted(ref.values(), reverse=desc)
            ctx.expect([float(x) for x in got_v] == want, "sort-order", f"{got_v} want {want}")
        elif o == 4:
            n = int(rng.integers(1, len(ref) + 1))
            g = v.greedy(n)
            ctx.expect([ref[k] for k in g] == sorted(ref.values(), reverse=True)[:n] and len(set(map(repr, g))) == n, "greedy", f"{g} {ref}")
        else:
            pos = {k: max(x, 0.0) for k, x in ref.items()}
            tot = sum(pos.values())
            if tot > 0:
                ctx.saw("probabilities", len(ks))
                for k in ks:
                    ctx.close(v.probability(k), pos[k] / tot, "probability", rtol=1e-9, atol=1e-12)


def maps(ctx, rng, i):
    n, keyed = int(rng.integers(1, 7)), rng.random() < 0.5
    cls = [ActionDistribution, ActionRewards][int(rng.integers(2))]
    with ctx.case("map", f"n={n} keyed={keyed}", distinct=f"m{i}"):
        if keyed:
            names = [Action(x) for x in rng.choice(50, size=n, replace=False).tolist()] if rng.random() < 0.6 else [Action((int(x), 1.5)) for x in rng.choice(50, size=n, replace=False)]
        else:
            names = [Action(j) for j in range(n)]
        ref = {k: value(rng) for k in names}
        v = cls(build(rng, ref, keyed))
        ctx.expect(v.is_sequence == (not keyed), "is-sequence", "")
        for _ in range(int(rng.integers(2, 10))):
            op = int(rng.integers(4))
            if op == 0:
                k = names[int(rng.integers(n))]
                ref[k] = value(rng)
                v[k] = ref[k]
            elif op in (1, 2):
                old = dict(ref)
                new = {k: value(rng) for k in names}
                part = rng.random() < 0.4
                if part:
                    new = {k: x for k, x in new.items() if rng.random() < 0.5}
                    w = v.replace({k: x for k, x in new.items()})
                else:
                    w = v.replace(build(rng, new, False))
                ctx.saw("replaced")
                check_all(ctx, rng, v, old, keyed)
                ref = {**old, **new}
                ctx.expect(type(w) is type(v), "replace-type", f"{type(w)}")
                v = w
            check_all(ctx, rng, v, ref, keyed)
        pos = np.maximum(np.array(list(ref.values())), 0)
        if pos.sum() > 0 and i % 3 == 0:
            ctx.saw("samples")
            m = int((pos > 0).sum())
            s = v.sample(m)
            ctx.expect(len(s) == m and len(set(map(repr, s))) == m and all(ref[k] > 0 for k in s), "sample-distinct", f"{s} from {ref}")
            if i % 15 == 0:
                cnt = {k: 0 for k in names}
                for _ in range(400):
                    cnt[v.sample(1)[0]] += 1
                ok, why = multinomial_ok([cnt[k] for k in names], (pos / pos.sum()).tolist())
                ctx.expect(ok, "sample-frequency", why)


def spaces(ctx, rng, i):
    n = int(rng.integers(1, 7))
    keyed = rng.random() < 0.5
    with ctx.case("space", f"n={n} keyed={keyed}", distinct=f"sp{i}"):
        names = [Action(x) for x in rng.choice(50, size=n, replace=False).tolist()] if keyed else [Action(j) for j in range(n)]
        sp = ActionSpace(names) if keyed else ActionSpace(n)
        ctx.expect(list(sp) == names and len(sp) == n and list(sp.space) == names, "space-items", f"{list(sp)}")
        for j, k in enumerate(names):
            ctx.expect(sp.index_of(k) == j and sp[j] == k, "space-index", "")
        for bad in (Action(51), Action(-1)):
            try:
                sp.index_of(bad)
                ctx.expect(False, "space-unknown", f"{bad} accepted")
            except ValueError:
                pass
        m = int(rng.integers(1, n + 3))
        vals = [value(rng) for _ in range(m)]
        ctx.saw("fills")
        src = vals if rng.random() < 0.5 or m > n else [np.array(vals), torch.tensor(vals, dtype=torch.float64)][int(rng.integers(2))]
        d = sp.distribution(src)
        want = {k: (vals[j] if j < m else 0.0) for j, k in enumerate(names)}
        ctx.expect({k: float(x) for k, x in d} == want, "fill-sequence", f"{list(d)} want {want}")
        some = {k: value(rng) for k in names if rng.random() < 0.6}
        d = sp.distribution({**some, Action(99): 7.0})
        want = {k: some.get(k, 0.0) for k in names}
        ctx.expect({k: float(x) for k, x in d} == want, "fill-mapping", f"{list(d)} want {want}")


def wrappers(ctx, rng, i):
    with ctx.case("wrapper", "", distinct=f"wr{i}"):
        pool = [3, 3, 4, (1, 2), (1, 2), (1, 3), 2.5, 2.5]
        a, b = pool[int(rng.integers(8))], pool[int(rng.integers(8))]
        x, y = TypeWrapper(a), TypeWrapper(b)
        ctx.saw("wrappers")
        ctx.expect((x == y) == (a == b) and (x != y) == (a != b), "wrapper-eq", f"{a} {b}")
        if a == b:
            ctx.expect(hash(x) == hash(y), "wrapper-hash", f"{a}")
        t = rng.normal(size=3)
        for mk in (torch.tensor, np.array, list):
            p, q = TypeWrapper(mk(t)), TypeWrapper(mk(t.copy()))
            ctx.expect(p == q and hash(p) == hash(q), "wrapper-array", f"{mk}")
            u = t.copy()
            u[int(rng.integers(3))] += 1
            ctx.expect(p != TypeWrapper(mk(u)), "wrapper-array-ne", f"{mk}")
        ctx.expect(int(TypeWrapper(5)) == 5 and [9, 8, 7][TypeWrapper(1)] == 8, "wrapper-int", "")


def utils(ctx, rng, i):
    with ctx.case("utils", "", distinct=f"u{i}"):
        xs = [float(rng.choice([rng.normal(), rng.normal() * 100, math.nan, math.inf, -math.inf])) for _ in range(int(rng.integers(0, 30)))]
        init = float(rng.choice([math.nan, 3.5]))
        ra = RunningAverage(init)
        good = [] if math.isnan(init) else [init]
        for x in xs:
            ra.add(x)
            if math.isfinite(x):
                good.append(x)
            ctx.expect(ra.count == len(good), "average-count", f"{ra.count} {len(good)}")
        ctx.saw("averages")
        want = sum(good) / len(good) if good else math.nan
        ctx.close(ra.average, want, "average", rtol=1e-9, atol=1e-9)
        ctx.close(float(ra), want, "average", rtol=1e-9, atol=1e-9)
        if good:
            ctx.close(ra.total, sum(good), "average-total", rtol=1e-8, atol=1e-8)
        lo, hi = sorted(rng.normal(size=2).tolist())
        c = Clamper(lo, hi)
        v = rng.normal(size=7) * 2
        want = np.clip(v, lo, hi)
        for src in (v, torch.tensor(v), list(v)):
            ctx.close(np.asarray(c(src)), want, "clamp")
        ctx.close([c(float(x)) for x in v], want, "clamp")
        for bad in ((hi, lo), (lo, lo)):
            try:
                Clamper(*bad)
                ctx.expect(False, "clamp-refused", f"{bad}")
            except ValueError:
                pass
        k = int(rng.integers(1, 6))
        idx = rng.integers(0, k, size=int(rng.integers(1, 9)))
        ctx.close(convert_to_one_hots(torch.tensor(idx), k), np.eye(k)[idx], "one-hots")
        # LRU cache
        size = int(rng.integers(1, 5))
        cache, ref = LRUCache(maxsize=size), []
        for _ in range(30):
            ctx.saw("cache_ops")
            key = int(rng.integers(0, 8))
            if rng.random() < 0.5:
                new = key not in [r[0] for r in ref]
                val = int(rng.integers(100))
                cache[key] = val
                if new:
                    ref.append([key, val])
                else:
                    [r for r in ref if r[0] == key][0][1] = val
                if len(ref) > size:
                    ref.pop(0)
            elif key in [r[0] for r in ref]:
                got = cache[key]
                e = [r for r in ref if r[0] == key][0]
                ctx.expect(got == e[1], "cache-value", f"{got} {e}")
                ref.remove(e)
                ref.append(e)
            else:
                ctx.expect(key not in cache, "cache-evicted", f"{key} {ref}")
            ctx.expect(len(cache) == len(ref) and set(cache.keys()) == {r[0] for r in ref}, "cache-content", f"{list(cache.keys())} {ref}")


class Fixed(Estimator):
    """Returns a result that is a function of its input."""

    def __init__(self, name, none_at=()):
        super().__init__()
        self.name, self.none_at = name, none_at

    def evaluate(self, input, **kwargs):
        if input in self.none_at:
            return None
        return EstimatorResult(log_reward=float(input), estimated_reward=float(input) * 2 + len(self.name), ground_truth_reward=float(input) + 0.5, estimated_weight=float(input + 1))

    def __repr__(self):
        return self.name


def results(ctx, rng, i):
    with ctx.case("results", "", distinct=f"re{i}"):
        rs, kept = EstimatorResults(), []
        for _ in range(int(rng.integers(2, 12))):
            e = float(rng.choice([rng.normal(), rng.normal(), math.nan, math.inf]))
            g = None if rng.random() < 0.2 else float(rng.normal())
            r = EstimatorResult(log_reward=float(rng.normal()), estimated_reward=e, ground_truth_reward=g, estimated_weight=float(rng.random()))
            rs.append(r)
            if math.isfinite(e):
                kept.append(r)
        ctx.saw("results")
        ctx.require(len(rs.results) == len(kept), "invalid-estimates", f"{len(rs.results)} {len(kept)}")
        if len(kept) < 2:
            return
        lr, er, gr, dg, dl, w = rs.report()
        E = np.array([r.estimated_reward for r in kept])
        L = np.array([r.log_reward for r in kept])
        G = np.array([r.ground_truth_reward or 0.0 for r in kept])
        ctx.close([lr, er, gr, w], [L.mean(), E.mean(), G.mean(), np.mean([r.estimated_weight for r in kept])], "report-means", rtol=1e-5, atol=1e-6)
        for d, x in ((dg, E - G), (dl, E - L)):
            ctx.close([d.rmse, d.bias, d.variance], [np.sqrt((x ** 2).mean()), x.mean(), x.var(ddof=1)], "report-diffs", rtol=1e-6, atol=1e-9)


def evaluators(ctx, rng, i):
    n = int(rng.integers(1, 7))
    with ctx.case("evaluator", f"n={n}", distinct=f"ev{i}"):
        ests = [Fixed("one"), Fixed("three", none_at=tuple(int(x) for x in rng.integers(0, 50, size=3)))]
        exps = [([e for e in ests if rng.random() < 0.8] or ests[:1], int(rng.integers(0, 50))) for _ in range(n)]
        want = {}
        for es, x in exps:
            for e in es:
                r = e.evaluate(x)
                if r is not None:
                    want.setdefault(repr(e), []).append((r.log_reward, r.estimated_reward, r.ground_truth_reward, r.estimated_weight))
        for workers in (0, int(rng.integers(1, 4))):
            ctx.saw("evaluators")
            if workers:
                compare(ctx, Evaluator(exps, workers).evaluate(), want, "parallel")
                ctx.saw("parallel")
            else:
                compare(ctx, Evaluator(exps, 0).evaluate(), want, "serial")


def compare(ctx, res, want, mech):
    got = {k: sorted((r.log_reward, r.estimated_reward, r.ground_truth_reward, r.estimated_weight) for r in v.results) for k, v in res.items() if v.results}
    ctx.expect(got == {k: sorted(v) for k, v in want.items()}, mech + "-results", f"{got} want {want}")


def run(ctx):
    for name, f, q, t in [("maps", maps, 400, 4000), ("spaces", spaces, 150, 1500), ("wrappers", wrappers, 200, 1000), ("utils", utils, 100, 1000),
                          ("results", results, 60, 500), ("evaluators", evaluators, 8, 60)]:
        with ctx.part(name):
            rng = ctx.nprng(name)
            ctx.seed_all(name)
            for i in range(ctx.n(q, t)):
                f(ctx, rng, i)
