import gzip
import os
import shutil

import numpy as np
import vf.quiet  # noqa
import torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from vf.replay import Fields, Shadow, episode_lengths, random_config
from vf.poison import poisoned

RULE = (
    "a case is one history cut at a save point, restored into a fresh or used buffer of the same configuration, then "
    "continued identically in both; fault cases remove or truncate every checkpoint file in turn; non-trivial = the "
    "saved buffer had at least one stored transition"
)
REQUIRED = {"restored": 80, "restored:fresh": 20, "continued_adds": 500, "restored:mid_episode": 20, "restored:wrapped": 20, "fault:missing": 60, "fault:truncated": 60, "stale_removed": 20, "rows_compared": 300}


def snapshot(buf, capacity):
    """Everything a user can observe."""
    out = {
        "size": int(buf.size), "add_count": int(buf.add_count), "cursor": int(buf.cursor()), "empty": bool(buf.is_empty()), "full": bool(buf.is_full()),
        "valid": [j for j in range(capacity) if bool(buf.is_valid_transition(j))],
    }
    if out["size"]:
        ids = torch.tensor(out["valid"])
        b = buf.sample_transition_batch(batch_size=len(ids), indices=ids)
        ended = b.terminal.reshape(-1)
        for name in b._fields:
            v = getattr(b, name)
            if name.startswith("next_"):
                if isinstance(v, torch.Tensor):
                    v = v[~ended]
                elif isinstance(v, list):
                    v = [x for x, e in zip(v, ended.tolist()) if not e]
                else:
                    keep = {}
                    for k, t in v.items():
                        off = t[0].tolist() + [len(t[1])]
                        keep[k] = [[x[off[r]:off[r + 1]].tolist() for x in t[1:]] for r in range(len(ids)) if not ended[r]]
                    v = keep
            out["batch." + name] = v
    if isinstance(buf, PrioritizedReplayBuffer):
        out["priorities"] = buf.get_priority(np.arange(capacity, dtype=np.int32)).tolist()
    return out


def same(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def diff(a, b):
    return [k for k in set(a) | set(b) if not (k in a and k in b and same(a[k], b[k]))]


def run(ctx):
    with poisoned():
        run_all(ctx)


def run_all(ctx):
    ctx.seed_all("r03")
    rng = ctx.sub("h")
    root = os.path.join(os.environ["VERIF_SCRATCH"], "ck")
    for i in range(ctx.n(160, 1500)):
        stack, horizon, capacity, gamma = random_config(rng)
        sparse = rng.random() < 0.2
        if sparse:
            stack, capacity = 1, max(capacity, horizon + 1)
        cls = PrioritizedReplayBuffer if (not sparse and rng.random() < 0.25) else ReplayBuffer
        fields = Fields(rng, sparse=sparse, extras=cls is ReplayBuffer)
        kw = dict(stack_size=stack, replay_capacity=capacity, batch_size=2, update_horizon=horizon, gamma=gamma)
        timeline = cls is ReplayBuffer and not sparse and rng.random() < 0.2
        if timeline:
            kw["return_as_timeline_format"] = True
        sh = Shadow(capacity, stack, horizon, gamma)
        lens = episode_lengths(rng, capacity, horizon, stack, 3 * capacity + 5)
        trs = []
        for L in lens:
            for t in range(L):
                tr = fields.make(t == L - 1)
                if cls is PrioritizedReplayBuffer:
                    tr["priority"] = float(rng.randint(0, 9))
                trs.append(tr)
        trs = trs[: 4 * capacity]
        cut = rng.randint(1, len(trs))
        target = rng.choice(["fresh", "used"])
        d = os.path.join(root, str(i))
        os.makedirs(d)
        with ctx.case("checkpoint", dict(kw, cls=cls.__name__, lens=lens[:10], cut=cut, target=target, sparse=fields.sparse)):
            buf = cls(**kw)
            for tr in trs[:cut]:
                buf.add(**tr)
                sh.add(**tr)
            before = snapshot(buf, capacity)
            it = rng.randint(0, 20)
            buf.save(d, it)
            ctx.expect(not diff(before, snapshot(buf, capacity)), "save-changes-buffer", f"{diff(before, snapshot(buf, capacity))}")
            other = cls(**kw)
            if target == "used":
                for tr in [fields.make(rng.random() < 0.3) for _ in range(rng.randint(1, 2 * capacity))]:
                    if cls is PrioritizedReplayBuffer:
                        tr["priority"] = 1.0
                    other.add(**tr)
            other.load(d, it)
            after = snapshot(other, capacity)
            ctx.saw("restored")
            ctx.saw("restored:" + target)
            ctx.saw("restored:mid_episode", int(not sh.fresh))
            ctx.saw("restored:wrapped", int(sh.total > capacity))
            ctx.saw("rows_compared", before["size"])
            bad = diff(before, after)
            ctx.require(not bad, "restored-differs:" + target, f"differs in {bad}: saved size {before['size']} valid {before['valid']}, restored size {after['size']} valid {after['valid']}")
            # the restored buffer lives on exactly like the uninterrupted one
            for j, tr in enumerate(trs[cut: cut + 3 * capacity]):
                buf.add(**tr)
                other.add(**tr)
                ctx.saw("continued_adds")
                a, b = snapshot(buf, capacity), snapshot(other, capacity)
                ctx.require(not diff(a, b), "continuation-differs", f"after {j + 1} more adds: {diff(a, b)}")
            # garbage collection: exactly the checkpoint four iterations back goes away
            files = sorted(os.listdir(d))
            ctx.expect(len(files) > 0 and all(f".{it}." in f for f in files), "checkpoint-files", f"{files}")
            for k in range(1, 4):
                buf.save(d, it + k)
                ctx.expect(set(files) <= set(os.listdir(d)), "collected-too-early", f"after iteration {it + k}, kept {os.listdir(d)}")
            keep = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
            buf.save(d, it + 4)
            left = set(os.listdir(d))
            ctx.expect(not (set(files) & left), "stale-kept", f"{set(files) & left}")
            ctx.expect(set(keep) - set(files) <= left, "collected-too-early", f"lost {set(keep) - set(files) - left}")
            ctx.saw("stale_removed", len(files))
            # faults
            newest = [f for f in left if f".{it + 4}." in f]
            orig = {f: open(os.path.join(d, f), "rb").read() for f in newest}
            live = snapshot(other, capacity)
            picks = newest if ctx.thorough else rng.sample(sorted(newest), min(3, len(newest)))
            for f in picks:
                p = os.path.join(d, f)
                os.remove(p)
                try:
                    other.load(d, it + 4)
                    ctx.expect(False, "missing-file-accepted", f"loaded without {f}")
                except Exception:
                    ctx.saw("fault:missing")
                ctx.expect(not diff(live, snapshot(other, capacity)), "missing-file-changed-buffer", f"{f}: {diff(live, snapshot(other, capacity))}")
                cutb = rng.choice([0, 5, len(orig[f]) // 2])
                with open(p, "wb") as o:
                    o.write(orig[f][:cutb])
                try:
                    other.load(d, it + 4)
                    ctx.expect(False, "truncated-file-accepted", f"loaded with {f} cut to {cutb} of {len(orig[f])} bytes")
                except Exception:
                    ctx.saw("fault:truncated")
                ctx.expect(not diff(live, snapshot(other, capacity)), "truncated-file-changed-buffer", f"{f} cut to {cutb}: {diff(live, snapshot(other, capacity))}")
                with open(p, "wb") as o:
                    o.write(orig[f])
            other.load(d, it + 4)
            ctx.expect(not diff(snapshot(buf, capacity), snapshot(other, capacity)), "restored-differs:used", "after faults")
            try:
                other.load(os.path.join(d, "nowhere"), 3)
                ctx.expect(False, "missing-directory-accepted", "")
            except Exception:
                pass
            buf.save(os.path.join(d, "nowhere"), 1)
            ctx.expect(not os.path.exists(os.path.join(d, "nowhere")), "save-creates-directory", "")
        shutil.rmtree(d, ignore_errors=True)
