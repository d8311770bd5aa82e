import random

import numpy as np
import vf.quiet  # noqa
import torch
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from reagent.replay_memory.sum_tree import SumTree
from vf.replay import Fields, Shadow, episode_lengths, random_config
from vf.stats import binom_ok, multinomial_ok
from vf.poison import poisoned

RULE = (
    "a case is one random operation sequence on one tree or one prioritised buffer, shadowed by a flat array of "
    "priorities; non-trivial = at least one priority changed after it was first set"
)
REQUIRED = {"tree:set": 1500, "tree:query": 3000, "tree:zero_leaf": 200, "tree:draws": 20000, "buffer:rows": 800, "buffer:set_priority": 150,
            "buffer:overwritten": 200, "buffer:draws": 10000, "stratified": 100, "buffer:batch_draws": 8000, "buffer:rejected_batches": 5}
ASSUMPTIONS = ["query value exactly 1.0 is not judged: the cumulative intervals are half-open",
               "priorities are multiples of 1/8 where exactness is judged, so interior sums are exact"]


def leaf_of(prios, q):
    """index of the leaf whose cumulative interval holds q * total (exact for dyadic priorities)"""
    x = q * sum(prios)
    acc = 0.0
    for i, p in enumerate(prios):
        if acc <= x < acc + p:
            return i
        acc += p
    return None


def near_boundary(prios, q):
    tot = sum(prios)
    acc = np.cumsum([0.0] + list(prios))
    return np.min(np.abs(acc - q * tot)) <= 1e-12 * max(1.0, tot)


def tree_case(ctx, rng):
    cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 100])
    flat = [0.0] * cap
    ops = rng.randint(3, 60)
    with ctx.case("tree", (cap, ops, rng.random())):
        tree = SumTree(cap)
        try:
            tree.sample()
            ctx.expect(False, "empty-tree-sampled", "sampling an empty tree returned")
        except Exception:
            pass
        for _ in range(ops):
            i = rng.randrange(cap)
            v = rng.choice([0.0, 0.125, 1.0, 2.5, 7.0, 100.0, rng.randint(0, 80) / 8.0, rng.choice([1234.5, 40000.0, 2.0**20])])
            tree.set(i, v)
            flat[i] = v
            ctx.saw("tree:set")
            ctx.saw("tree:zero_leaf", int(v == 0))
            if rng.random() < 0.1:
                try:
                    tree.set(i, -0.5)
                    ctx.expect(False, "negative-priority-accepted", "")
                except ValueError:
                    pass
            ctx.expect([float(tree.get(j)) for j in range(cap)] == flat, "tree-leaves", f"got {[float(tree.get(j)) for j in range(cap)]} want {flat}")
            if sum(flat) > 0:
                for _ in range(3):
                    q = rng.choice([0.0, rng.random(), rng.random(), sum(flat[: rng.randrange(cap)]) / sum(flat), 1 - 1e-9])
                    if q >= 1.0:
                        continue
                    got = int(tree.sample(query_value=q))
                    ctx.saw("tree:query")
                    ctx.expect(0 <= got < cap and flat[got] > 0, "zero-priority-sampled", f"q={q} leaf {got} flat {flat}")
                    if not near_boundary(flat, q):
                        ctx.expect(got == leaf_of(flat, q), "query-interval", f"q={q} got {got} want {leaf_of(flat, q)} flat {flat}")
                if rng.random() < 0.3:
                    b = rng.choice([rng.randint(1, 12), rng.randint(13, 80)])
                    got = [int(x) for x in tree.stratified_sample(b)]
                    ctx.saw("stratified")
                    ctx.expect(len(got) == b, "stratified-count", f"{len(got)} of {b}")
                    cum = np.cumsum([0.0] + flat) / sum(flat)
                    for s, leaf in enumerate(got):
                        ok = 0 <= leaf < cap and flat[leaf] > 0 and cum[leaf] <= (s + 1) / b + 1e-9 and cum[leaf + 1] >= s / b - 1e-9
                        ctx.expect(ok, "stratified-stratum", f"stratum {s}/{b} gave leaf {leaf} of {flat}")
            ctx.expect(tree.max_recorded_priority == max(1.0, ctx_max(ctx, tree, v)), "max-recorded", f"{tree.max_recorded_priority}")
        for bad in (-0.1, 1.1):
            if sum(flat) > 0:
                try:
                    tree.sample(query_value=bad)
                    ctx.expect(False, "bad-query-accepted", f"{bad}")
                except ValueError:
                    pass
        if sum(flat) > 0:
            N = 1500
            counts = [0] * cap
            for _ in range(N):
                counts[int(tree.sample())] += 1
            ctx.saw("tree:draws", N)
            ok, why = multinomial_ok(counts, [f / sum(flat) for f in flat])
            ctx.expect(ok, "tree-proportional", why)
            b = rng.choice([3, 25, 60])
            got = [int(x) for _ in range(40) for x in tree.stratified_sample(b)]
            ok, why = multinomial_ok([got.count(j) for j in range(cap)], [f / sum(flat) for f in flat])
            ctx.expect(ok, "stratified-proportional", f"{b} strata: {why}")
            # the last stratum reaches the end of the range: its draws are spread over the whole of it
            last = [j for j in range(cap) if flat[j] > 0][-1]
            if flat[last] * b <= 1.0 * sum(flat) and flat[last] * b >= 0.2 * sum(flat):
                hits = sum(int(tree.stratified_sample(b)[-1]) == last for _ in range(150))
                ctx.saw("last_stratum")
                ctx.expect(binom_ok(hits, 150, flat[last] * b / sum(flat)), "stratified-last", f"{hits} of 150 draws of stratum {b} of {b} reach the last leaf {flat[last]} of {sum(flat)}")
    _MAX.pop(id(tree), None)


_MAX = {}


def ctx_max(ctx, tree, v):
    _MAX[id(tree)] = max(_MAX.get(id(tree), 0.0), v)
    return _MAX[id(tree)]


def buffer_case(ctx, rng):
    stack, horizon, capacity, gamma = random_config(rng)
    fields = Fields(rng, extras=False)
    buf = PrioritizedReplayBuffer(stack_size=stack, replay_capacity=capacity, batch_size=3, update_horizon=horizon, gamma=gamma, max_sample_attempts=100000)
    sh = Shadow(capacity, stack, horizon, gamma)
    flat = [0.0] * capacity
    lens = episode_lengths(rng, capacity, horizon, stack, 3 * capacity + 5)
    big = rng.choice([[], [], [150.0, 1000.5], [60000.0]])
    n = 0
    with ctx.case("buffer", dict(stack=stack, horizon=horizon, capacity=capacity, lens=lens[:12])):
        for L in lens:
            for t in range(L):
                n += 1
                if n > 4 * capacity:
                    break
                p = rng.choice([0.0, 0.5, 1.0, 3.0, 10.0, rng.randint(1, 80) / 8.0] + big)
                tr = fields.make(t == L - 1)
                before = sh.total
                buf.add(priority=p, **tr)
                sh.add(**tr)
                for a in range(before, sh.total):
                    if a >= capacity:
                        ctx.saw("buffer:overwritten")
                    flat[a % capacity] = p if a == sh.total - 1 else 0.0
                if rng.random() < 0.25 and sh.valid():
                    ids = rng.sample(sorted(sh.valid()), rng.randint(1, min(3, len(sh.valid()))))
                    ps = [rng.choice([0.0, 1.0, 2.0, 5.5] + big) for _ in ids]
                    buf.set_priority(np.array(ids, dtype=np.int32), np.array(ps, dtype=np.float32))
                    for j, v in zip(ids, ps):
                        flat[j] = v
                    ctx.saw("buffer:set_priority")
                got = buf.get_priority(np.arange(capacity, dtype=np.int32))
                ctx.require(np.array_equal(got, np.array(flat, np.float32)), "stored-priorities", f"after add {n}: got {got} want {flat}")
                valid = sorted(sh.valid())
                live = [j for j in valid if flat[j] > 0]
                # documented behaviour is rejection of invalid slots; keep acceptance likely
                if live and rng.random() < 0.3 and sum(flat[j] for j in live) >= 0.05 * sum(flat):
                    bs = rng.choice([None, 1, 2, 5])
                    b = buf.sample_transition_batch(batch_size=bs)
                    want_n = 3 if bs is None else bs
                    ids = b.indices.reshape(-1).tolist()
                    ctx.expect(len(ids) == want_n, "sample-count", f"{len(ids)} of {want_n}")
                    ctx.expect(set(ids) <= set(live), "sampled-invalid", f"{ids} valid with positive priority {live}")
                    ctx.expect(tuple(b.sampling_probabilities.shape) == (want_n, 1), "weights-shape", f"{b.sampling_probabilities.shape}")
                    ctx.expect([float(x) for x in b.sampling_probabilities.reshape(-1)] == [np.float32(flat[j]) for j in ids], "weights", f"{b.sampling_probabilities} for {ids} of {flat}")
                    ctx.saw("buffer:rows", want_n)
                    b = buf.sample_transition_batch(batch_size=len(live), indices=torch.tensor(live))
                    ctx.expect([float(x) for x in b.sampling_probabilities.reshape(-1)] == [np.float32(flat[j]) for j in live], "weights", f"{b.sampling_probabilities} for {live} of {flat}")
                    ctx.saw("buffer:rows", len(live))
        live = [j for j in sorted(sh.valid()) if flat[j] > 0]
        if live and sum(flat[j] for j in live) >= 0.05 * sum(flat):
            # one draw per call: rejection sampling of a single stratum is exactly proportional
            N = 800
            ids = [int(buf.sample_index_batch(1)[0]) for _ in range(N)]
            ctx.saw("buffer:draws", N)
            tot = sum(flat[j] for j in live)
            ok, why = multinomial_ok([ids.count(j) for j in live], [flat[j] / tot for j in live])
            ctx.expect(ok and set(ids) <= set(live), "buffer-proportional", why)
            # strata of a larger batch cover the whole range, and each rejected draw is replaced by an independent one, so over all
            # positions of a batch the rows are again in proportion
            bs = rng.choice([2, 3, 8, 40])
            ids = [int(j) for _ in range(max(1, N // bs)) for j in buf.sample_index_batch(bs)]
            ctx.saw("buffer:batch_draws", len(ids))
            ok, why = multinomial_ok([ids.count(j) for j in live], [flat[j] / tot for j in live])
            ctx.expect(ok and set(ids) <= set(live), "batches-proportional", f"batches of {bs}: {why}")
            if bs > 1 and len(live) < len([f for f in flat if f > 0]):
                ctx.saw("buffer:rejected_batches")


def run(ctx):
    with poisoned():
        run_all(ctx)


def run_all(ctx):
    ctx.seed_all("r04")
    rng = ctx.sub("tree")
    with ctx.part("tree"):
        for _ in range(ctx.n(80, 1200)):
            tree_case(ctx, rng)
    with ctx.part("tree-float"):
        for _ in range(ctx.n(20, 200)):
            cap = rng.choice([3, 10, 37, 1000])
            with ctx.case("tree-float", (cap, rng.random())):
                tree = SumTree(cap)
                flat = [0.0] * cap
                for _ in range(3 * cap if cap < 100 else 1500):
                    i = rng.randrange(cap)
                    v = rng.random() * rng.choice([1e-3, 1, 1e3])
                    tree.set(i, v)
                    flat[i] = v
                tot = sum(flat)
                cum = np.cumsum(flat)
                for _ in range(100):
                    q = rng.random()
                    got = int(tree.sample(query_value=q))
                    x = q * tot
                    lo = cum[got] - flat[got]
                    ctx.saw("tree:query")
                    ctx.expect(lo - 1e-6 * tot <= x <= cum[got] + 1e-6 * tot, "query-interval", f"q={q} leaf {got} [{lo},{cum[got]}] of {tot}")
    rng = ctx.sub("buffer")
    with ctx.part("buffer"):
        for _ in range(ctx.n(60, 900)):
            buffer_case(ctx, rng)
