import numpy as np

import vf.quiet  # noqa
import torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from vf.replay import Fields, Shadow, TORCH_DTYPE, episode_lengths, random_config, storage_dtype
from vf.poison import poisoned

RULE = (
    "a case is one randomised add/sample history of one buffer configuration (capacity, stack, horizon, gamma, "
    "stack-everything, timeline, field signature, episode lengths biased to boundaries); non-trivial = at least one "
    "transition was sampled and decided against the shadow history"
)
REQUIRED = {"row": 2000, "row:terminal": 200, "row:stack>1": 200, "row:horizon>1": 200, "row:wrapped": 300, "row:timeline": 100,
            "row:sparse": 50, "row:padding": 50, "row:early_end": 50}
ASSUMPTIONS = ["contents of next_* at an episode end are documented as undefined and are not judged"]


def as_np(x):
    return x.numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def at_least_2d(batch_shape):
    return batch_shape + (1,) if len(batch_shape) == 1 else batch_shape


def check_batch(ctx, sh, fields, batch, everything, timeline, where_from):
    elems = batch._fields
    idx = as_np(batch.indices).reshape(-1)
    B = len(idx)
    kinds = fields.kinds()
    want_names = {"state", "action", "reward", "next_state", "next_action", "next_reward", "terminal", "indices", "step"}
    for k in list(fields.extra) + list(fields.sparse):
        want_names |= {k, "next_" + k}
    ctx.expect(want_names <= set(elems), "batch-fields", f"missing {want_names - set(elems)}")
    dts = {}
    first = next(r for r in sh.log if r is not None)
    for k in kinds:
        dts[k] = storage_dtype(first[k])

    def dense(key, a):
        shape = kinds[key][0]
        return sh.stacked(key, a, shape, dts[key])

    for name in elems:
        v = getattr(batch, name)
        if isinstance(v, torch.Tensor):
            ctx.expect(v.ndim >= 2 and v.shape[0] == B, "batch-dim", f"{name}: {tuple(v.shape)} for batch {B}")
    for r in range(B):
        a = sh.where(int(idx[r]))
        rec = sh.log[a] if a >= 0 else None
        ctx.require(rec is not None and sh.is_valid(a), "sampled-invalid", f"index {idx[r]} abs {a}", source=where_from)
        k, ended = sh.steps(a)
        ctx.saw("row")
        if ended:
            ctx.saw("row:terminal")
        if sh.stack > 1:
            ctx.saw("row:stack>1")
            if any(sh.log[j] is None for j in range(max(0, a - sh.stack + 1), a + 1)):
                ctx.saw("row:padding")
        if sh.horizon > 1:
            ctx.saw("row:horizon>1")
            if ended and k < sh.horizon:
                ctx.saw("row:early_end")
        if sh.total > sh.capacity:
            ctx.saw("row:wrapped")
        w = dict(row=r, index=int(idx[r]), absolute=a, source=where_from)

        def eq(got, want, mech, dtype=None):
            got = got if isinstance(got, torch.Tensor) else torch.as_tensor(got)
            g = got.numpy()
            want = np.asarray(want)
            if want.ndim == 0:
                want = want.reshape(1)
            ok = g.shape == want.shape and np.array_equal(g, want)
            if dtype is not None:
                ok = ok and got.dtype == TORCH_DTYPE[dtype]
            ctx.expect(ok, mech, f"got {got!r} want {want!r}", **w)

        eq(batch.state[r], dense("observation", a), "state", dts["observation"])
        eq(batch.action[r], dense("action", a), "action", dts["action"])
        ctx.expect(int(batch.step[r]) == k, "step", f"got {batch.step[r]} want {k}", **w)
        ctx.expect(bool(batch.terminal[r]) == ended and batch.terminal.dtype == torch.bool, "terminal", f"got {batch.terminal[r]} want {ended}", **w)
        for e in fields.extra:
            eq(getattr(batch, e)[r], dense(e, a), "extra", dts[e])
        # reward
        if timeline:
            ctx.saw("row:timeline")
            got = batch.reward[r]
            want = np.stack([dense("reward", a + j) for j in range(k)])
            ctx.expect(got.shape == want.shape and np.array_equal(got.numpy(), want), "timeline-reward", f"got {got} want {want}", **w)
        elif everything:
            eq(batch.reward[r], dense("reward", a), "stacked-reward")
        else:
            want = sum((sh.gamma ** j) * float(sh.log[a + j]["reward"]) for j in range(k))
            scale = sum(abs(float(sh.log[a + j]["reward"])) for j in range(k)) + 1
            ctx.expect(batch.reward[r].shape == (1,) and abs(float(batch.reward[r]) - want) <= 1e-5 * scale, "n-step-reward", f"got {batch.reward[r]} want {want}", k=k, **w)
        # next
        for e in ["observation", "action", "reward"] + list(fields.extra):
            nm = "next_state" if e == "observation" else "next_" + e
            got = getattr(batch, nm)
            if timeline:
                want_n = k if not ended else k - 1
                ctx.expect(len(got) == B and got[r].shape[0] == k, "timeline-length", f"{nm}: {len(got)} lists, {got[r].shape[0]} steps, want {k}", **w)
                if want_n:
                    want = np.stack([dense(e, a + j) for j in range(1, want_n + 1)])
                    g = got[r][:want_n].numpy()
                    ctx.expect(g.shape == want.shape and np.array_equal(g, want), "timeline-next", f"{nm}: got {g} want {want}", **w)
            elif not ended:
                eq(got[r], dense(e, a + k), "next:" + ("field" if e not in ("observation",) else "state"))
        # sparse
        for e, keys in fields.sparse.items():
            ctx.saw("row:sparse")
            for nm, ab in ((e, a), ("next_" + e, a + k)):
                if nm.startswith("next_") and ended:
                    continue
                got = getattr(batch, nm)
                ctx.require(isinstance(got, dict) and set(got) == set(keys), "sparse-keys", f"{nm}: {got}", **w)
                for q in keys:
                    off = got[q][0].tolist() + [len(got[q][1])]
                    ctx.require(len(off) == B + 1, "sparse-offsets", f"{nm}.{q}: {off}", **w)
                    seg = slice(off[r], off[r + 1])
                    src = sh.log[ab][e][q]
                    if e == "id_list":
                        ctx.expect(got[q][1][seg].tolist() == list(src), "sparse-ids", f"{nm}.{q}: {got[q][1][seg]} want {src}", **w)
                    else:
                        ctx.expect(got[q][1][seg].tolist() == list(src[0]) and got[q][2][seg].tolist() == list(src[1]), "sparse-scores", f"{nm}.{q}: {got[q][1][seg]} want {src}", **w)


def one_history(ctx, rng, i):
    stack, horizon, capacity, gamma = random_config(rng)
    sparse = rng.random() < 0.2
    if sparse:
        stack, capacity = 1, max(capacity - stack + 1, horizon + 1)
    timeline = rng.random() < 0.25 and not sparse
    everything = (rng.random() < 0.25) and not timeline
    prioritized = rng.random() < 0.15 and not (timeline or everything)
    fields = Fields(rng, sparse=sparse)
    kw = dict(stack_size=stack, replay_capacity=capacity, batch_size=rng.randint(1, 5), update_horizon=horizon, gamma=gamma)
    if prioritized:
        fields.extra = {"priority": ((), "float")}
        fields.sparse = {}
        buf = PrioritizedReplayBuffer(**kw)
    else:
        buf = ReplayBuffer(return_everything_as_stack=everything, return_as_timeline_format=timeline, **kw)
    sh = Shadow(capacity, stack, horizon, gamma)
    budget = rng.choice([capacity, 2 * capacity, 4 * capacity]) + 5
    lens = episode_lengths(rng, capacity, horizon, stack, budget)
    desc = dict(kw, everything=everything, timeline=timeline, prioritized=prioritized, lens=lens[:12], obs=fields.obs_kind, act=fields.act_kind, extra=fields.extra, sparse=fields.sparse)
    with ctx.case("history", desc):
        n_adds = 0
        for L in lens:
            for t in range(L):
                if n_adds > 5 * capacity + 10:
                    break
                tr = fields.make(t == L - 1)
                if prioritized:
                    tr["priority"] = float(rng.randint(1, 8))
                buf.add(**tr)
                sh.add(**tr)
                n_adds += 1
                p = 0.15 if capacity < 12 else 0.06
                if rng.random() < p and sh.valid():
                    mode = rng.random()
                    if mode < 0.4 and not prioritized:
                        check_batch(ctx, sh, fields, buf.sample_all_valid_transitions(), everything, timeline, "all")
                    elif mode < 0.7:
                        n = rng.randint(1, 6)
                        check_batch(ctx, sh, fields, buf.sample_transition_batch(batch_size=n), everything, timeline, "batch")
                    else:
                        pool = sorted(sh.valid())
                        ids = [rng.choice(pool) for _ in range(rng.randint(1, 6))]
                        b = buf.sample_transition_batch(batch_size=len(ids), indices=torch.tensor(ids, dtype=rng.choice([torch.int64, torch.int32])))
                        ctx.expect(b.indices.reshape(-1).tolist() == ids, "indices-echo", f"{b.indices} vs {ids}")
                        check_batch(ctx, sh, fields, b, everything, timeline, "indices")
                        ctx.saw("sampled:indices")
                if rng.random() < 0.02 and sh.valid() and not prioritized:
                    b = buf.sample_transition_batch()
                    ctx.expect(len(b.indices) == kw["batch_size"], "default-batch-size", f"{len(b.indices)}")
                    check_batch(ctx, sh, fields, b, everything, timeline, "default")


def run(ctx):
    with poisoned():
        run_all(ctx)


def run_all(ctx):
    ctx.seed_all("r01")
    rng = ctx.sub("histories")
    with ctx.part("histories"):
        for i in range(ctx.n(260, 4000)):
            one_history(ctx, rng, i)
