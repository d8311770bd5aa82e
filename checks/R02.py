import math

import vf.quiet  # noqa
import torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from vf.replay import Fields, Shadow, episode_lengths, random_config
from vf.stats import multinomial_ok
from vf.poison import poisoned

RULE = (
    "a case is one randomised add history of one configuration, validity compared index by index with a from-scratch "
    "recomputation after every add; non-trivial = the history has at least one complete and one incomplete step; "
    "plus sampling-frequency cases over fixed states"
)
REQUIRED = {"adds_checked": 3000, "indices_checked": 20000, "state:full": 500, "state:has_padding": 200, "state:open_episode": 500,
            "state:just_terminated": 300, "draws": 20000, "refused_empty": 20, "all_transitions": 200}


def run(ctx):
    with poisoned():
        run_all(ctx)


def run_all(ctx):
    ctx.seed_all("r02")
    rng = ctx.sub("h")
    with ctx.part("histories"):
        for i in range(ctx.n(220, 4000)):
            stack, horizon, capacity, gamma = random_config(rng)
            cls = PrioritizedReplayBuffer if rng.random() < 0.2 else ReplayBuffer
            pri = {"priority": 1.0} if cls is PrioritizedReplayBuffer else {}
            fields = Fields(rng, extras=False)
            buf = cls(stack_size=stack, replay_capacity=capacity, batch_size=2, update_horizon=horizon, gamma=gamma)
            sh = Shadow(capacity, stack, horizon, gamma)
            lens = episode_lengths(rng, capacity, horizon, stack, rng.choice([1, 2, 4]) * capacity + 5)
            seen = set()
            with ctx.case("history", dict(cls=cls.__name__, stack=stack, horizon=horizon, capacity=capacity, lens=lens[:15])):
                ctx.expect(buf.size == 0 and buf.is_empty(), "empty-at-start", f"size {buf.size}")
                try:
                    buf.sample_index_batch(1)
                    ctx.expect(False, "empty-sample-not-refused", "sampling an empty buffer returned")
                except Exception:
                    ctx.saw("refused_empty")
                n = 0
                for L in lens:
                    for t in range(L):
                        n += 1
                        if n > 4 * capacity + 12:
                            break
                        tr = fields.make(t == L - 1)
                        buf.add(**tr, **pri)
                        sh.add(**tr)
                        ctx.saw("adds_checked")
                        want = sh.valid()
                        got = {j for j in range(capacity) if bool(buf.is_valid_transition(j))}
                        ctx.saw("indices_checked", capacity)
                        ctx.saw("state:full", int(sh.total >= capacity))
                        ctx.saw("state:has_padding", int(stack > 1))
                        ctx.saw("state:open_episode", int(not sh.fresh))
                        ctx.saw("state:just_terminated", int(sh.fresh))
                        ctx.require(got == set(want), "valid-set", f"after add {n} (t={t} of {L}): extra {sorted(got - set(want))} missing {sorted(set(want) - got)}")
                        ctx.expect(buf.size == len(want), "size", f"size {buf.size} valid {len(want)}")
                        ctx.expect(int(buf.add_count) == sh.total and int(buf.cursor()) == sh.total % capacity, "cursor", f"add_count {buf.add_count} cursor {buf.cursor()} want {sh.total}")
                        ctx.expect(bool(buf.is_full()) == (sh.total >= capacity) and not buf.is_empty(), "full-flag", f"{buf.is_full()}")
                        if want and rng.random() < 0.1 and not pri:
                            b = buf.sample_all_valid_transitions()
                            ids = b.indices.reshape(-1).tolist()
                            ctx.saw("all_transitions")
                            ctx.expect(sorted(ids) == sorted(want), "all-exactly-once", f"{ids} vs {sorted(want)}")
                        if want and rng.random() < 0.2:
                            ids = buf.sample_index_batch(7).tolist()
                            ctx.expect(len(ids) == 7 and set(ids) <= set(want), "sampled-invalid", f"{ids} not in {sorted(want)}")
                        if not want:
                            try:
                                buf.sample_index_batch(1)
                                ctx.expect(False, "empty-sample-not-refused", "no valid transition, yet sampling returned")
                            except Exception:
                                ctx.saw("refused_empty")
                        seen.add(tuple(sorted(got)))
                ctx.saw("distinct_valid_sets", len(seen))
    with ctx.part("frequency"):
        for i in range(ctx.n(12, 60)):
            stack, horizon, capacity, gamma = random_config(rng)
            if i % 4 == 0:
                capacity += rng.choice([100, 200, 300])
            fields = Fields(rng, extras=False)
            buf = ReplayBuffer(stack_size=stack, replay_capacity=capacity, batch_size=2, update_horizon=horizon, gamma=gamma)
            sh = Shadow(capacity, stack, horizon, gamma)
            lens = episode_lengths(rng, capacity, horizon, stack, 3 * capacity + 5)
            with ctx.case("frequency", dict(stack=stack, horizon=horizon, capacity=capacity, lens=lens[:15])):
                for L in lens:
                    for t in range(L):
                        tr = fields.make(t == L - 1)
                        buf.add(**tr)
                        sh.add(**tr)
                want = sorted(sh.valid())
                if not want:
                    continue
                N = 3000
                ids = buf.sample_index_batch(N).tolist()
                counts = [ids.count(j) for j in want]
                ctx.saw("draws", N)
                ctx.require(sum(counts) == N, "sampled-invalid", f"drew {set(ids) - set(want)}")
                ok, why = multinomial_ok(counts, [1.0 / len(want)] * len(want))
                ctx.expect(ok, "uniform-sampling", why)
    for bad in range(ctx.n(40, 200)):
        stack, horizon = rng.randint(1, 5), rng.randint(1, 5)
        cap = rng.randint(1, stack + horizon - 1)
        with ctx.case("refused-capacity", (stack, horizon, cap)):
            try:
                ReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=1, update_horizon=horizon)
                ctx.expect(False, "too-small-capacity-accepted", f"{stack} {horizon} {cap}")
            except ValueError:
                ctx.saw("refused_capacity")
