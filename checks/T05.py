"""T05: every optimizer step touches only its own parameters, and targets track softly."""
import vf.quiet  # noqa
import copy

import torch
import torch.nn as nn
from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook
from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding
from reagent.optimizer.soft_update import SoftUpdate

from vf import zoo
from vf.train import same, snapshot, torch_opt

RULE = (
    "Every Lightning trainer is run by the real pytorch_lightning.Trainer over random batches while process-wide "
    "optimizer pre/post step hooks snapshot every parameter of the module. Around each step only parameters of the "
    "network that optimizer owns may change; a soft update must leave target = tau*online + (1-tau)*target for every "
    "pair and nothing else; per batch each owned network must be stepped exactly once (delayed ones on schedule). "
    "SoftUpdate is also driven alone on random parameter sets."
)
REQUIRED = {"grad_step": 400, "soft_step": 120, "soft_nontrivial": 60, "off_schedule_batch": 10, "moved_network": 300, "direct": 100, "shared_param": 20, "no_soft_embedding": 10, "refusal": 20, "frozen_param": 40, **{"kind:" + k: 4 for k in zoo.KINDS}}


class Monitor:
    """Watches every optimizer step taken anywhere in the process."""

    def __init__(self, ctx, z):
        self.ctx, self.z, self.events, self.batch = ctx, z, [], -1
        m = z.module
        self.named = {n: p for n, p in m.named_parameters()}
        self.owner = {}
        for grp in z.owned:
            for a in grp:
                for p in z.params(a):
                    self.owner[id(p)] = a

    def __enter__(self):
        self.h = [register_optimizer_step_pre_hook(self.pre), register_optimizer_step_post_hook(self.post)]
        return self

    def __exit__(self, *a):
        for h in self.h:
            h.remove()

    def grab(self):
        return {n: p.detach().clone() for n, p in self.named.items()}

    def pre(self, o, args, kwargs):
        self.before = self.grab()

    def post(self, o, args, kwargs):
        ctx, z = self.ctx, self.z
        changed = {n for n, p in self.named.items() if not torch.equal(self.before[n], p)}
        b = self.before
        name_of = {id(p): n for n, p in self.named.items()}
        soft = isinstance(o, SoftUpdate)
        mine = {id(p) for g in o.param_groups for p in g["params"]}
        if soft:
            ctx.saw("soft_step")
            ok_t, moved = set(), False
            for t, s in z.pairs:
                for pt, ps in zip(z.params(t), z.params(s)):
                    ok_t.add(name_of[id(pt)])
            ctx.expect(changed <= ok_t, "soft_update_touches_only_targets", f"{sorted(changed - ok_t)[:4]}")
            if changed or not self.off_schedule():
                for t, s in z.pairs:
                    for pt, ps in zip(z.params(t), z.params(s)):
                        want = z.tau * b[name_of[id(ps)]] + (1 - z.tau) * b[name_of[id(pt)]]
                        ctx.close(pt, want, "soft_update_is_polyak", rtol=1e-5, atol=1e-6, target=t)
            if changed:
                ctx.saw("soft_nontrivial")
            self.events.append(("soft", bool(changed)))
        else:
            ctx.saw("grad_step")
            owners = {self.owner.get(i) for i in mine}
            ctx.expect(len(owners) == 1 and None not in owners, "optimizer_owns_exactly_one_network", f"{owners}")
            for a in owners - {None}:
                ctx.expect(mine == {id(p) for p in z.params(a)}, "optimizer_owns_the_whole_network", f"{a}")
            bad = sorted(n for n in changed if id(self.named[n]) not in mine)
            ctx.expect(not bad, "step_changes_only_owned_parameters", f"{owners}: {bad[:4]}")
            self.events.append((next(iter(owners)), bool(changed)))

    def off_schedule(self):
        return self.z.delay > 1 and self.batch % self.z.delay != 0

    def end_batch(self):
        ctx, z = self.ctx, self.z
        off = self.off_schedule()
        ctx.saw("off_schedule_batch", off)
        grads = [e for e in self.events if e[0] != "soft"]
        softs = [e for e in self.events if e[0] == "soft"]
        for grp in z.owned:
            for a in grp:
                n = sum(1 for e in grads if e[0] == a and e[1])
                if off and a in z.delayed:
                    ctx.expect(n == 0, "delayed_network_moves_only_on_schedule", f"{a} moved on batch {self.batch} with delay {z.delay}")
                else:
                    ctx.saw("moved_network", n)
                    ctx.expect(n == 1, "each_network_steps_once_per_batch", f"{a} moved {n} times on batch {self.batch}")
        ctx.expect(not (off and any(c for _, c in softs)), "targets_follow_only_on_schedule", f"batch {self.batch} delay {z.delay}")
        if self.events:
            ctx.expect(self.events[-1][0] == "soft", "targets_follow_after_the_gradient_steps", f"{self.events}")
        self.events = []


def drive(ctx, k):
    import pytorch_lightning as pl

    rng = ctx.sub(f"drive{k}")
    ctx.seed_all(f"drive{k}")
    kind = zoo.KINDS[k % len(zoo.KINDS)]
    z = zoo.build(rng, kind)
    nb = rng.choice([2, 4, 5])
    batches = [z.make_batch() for _ in range(nb)]
    snaps = [snapshot(b) for b in batches]
    with ctx.case("train:" + kind, dict(z.desc, batches=nb), distinct=k):
        mon = Monitor(ctx, z)

        class CB(pl.Callback):
            def on_train_batch_start(self, *a):
                mon.batch += 1
                mon.start = mon.grab()

            def on_train_batch_end(self, *a):
                mon.end_batch()

        with mon:
            zoo.lightning(callbacks=[CB()]).fit(z.module, zoo.dataset(batches))
        ctx.saw("kind:" + kind)
        ctx.expect(mon.batch == nb - 1, "every_batch_is_trained", f"{mon.batch + 1} of {nb}")
        for b, sn in zip(batches, snaps):
            ctx.expect(not same(sn, b), "batches_are_not_modified", f"{same(sn, b)}")


def direct(ctx, k):
    rng = ctx.sub(f"direct{k}")
    ctx.seed_all(f"direct{k}")
    m = rng.randint(1, 5)
    shapes = [tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3))) for _ in range(m)]
    # tracking does not depend on how the online value came to change: frozen layers track as well
    src = [nn.Parameter(torch.randn(sh), requires_grad=rng.random() < 0.75) for sh in shapes]
    tgt = [s if rng.random() < 0.2 else nn.Parameter(torch.randn(sh), requires_grad=rng.random() < 0.75) for s, sh in zip(src, shapes)]
    for q in src + tgt:
        ctx.saw("frozen_param", not q.requires_grad)
        if rng.random() < 0.5:
            q.grad = torch.randn_like(q)
    tau = rng.choice([0.0, 1.0, 0.5, rng.random()])
    with ctx.case("soft_update", dict(shapes=shapes, tau=tau), distinct=k):
        gen = rng.random() < 0.5
        o = SoftUpdate(iter(tgt) if gen else tgt, iter(src) if gen else src, tau=tau)
        for step in range(rng.randint(1, 4)):
            s0, t0 = [p.detach().clone() for p in src], [p.detach().clone() for p in tgt]
            mode = rng.choice(["plain", "loss", "none"])
            called = []
            if mode == "plain":
                r = o.step()
            else:
                def cl():
                    called.append(torch.is_grad_enabled())
                    return torch.ones(1) if mode == "loss" else None
                r = o.step(cl)
                ctx.expect(called == [True], "closure_runs_once_with_grad", f"{called}")
            ctx.saw("direct")
            ctx.expect((r is None) == (mode != "loss"), "soft_update_returns_closure_loss")
            for a, b, s, t in zip(s0, t0, src, tgt):
                ctx.expect(torch.equal(a, s), "soft_update_leaves_source")
                if s is t:
                    ctx.saw("shared_param")
                    continue
                ctx.close(t, b if mode == "none" else tau * a + (1 - tau) * b, "soft_update_is_polyak", rtol=1e-5, atol=1e-6)
            with torch.no_grad():
                for s in src:
                    s.add_(torch.randn_like(s))
    with ctx.case("soft_update_refusals", k, distinct=("r", k)):
        for a, b, tau in ((tgt + [nn.Parameter(torch.zeros(1))], src, 0.5), ([nn.Parameter(torch.zeros(7, 7, 7))] + tgt[1:], src, 0.5), (tgt, src, rng.choice([-0.01, 1.01, 5]))):
            try:
                with torch.no_grad():
                    import warnings

                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        SoftUpdate(a, b, tau=tau)
                ok = False
            except ValueError:
                ok = True
            ctx.saw("refusal")
            ctx.expect(ok, "soft_update_refuses_mismatch", f"{len(a)} {len(b)} {tau}")


def embedding(ctx, k):
    rng = ctx.sub(f"emb{k}")
    ctx.seed_all(f"emb{k}")
    with ctx.case("no_soft_update_embedding", k, distinct=("e", k)):
        net = nn.Sequential(NoSoftUpdateEmbedding(4, 3), nn.Linear(3, 2))
        tgt = copy.deepcopy(net)
        plain = copy.deepcopy(nn.Sequential(nn.Embedding(4, 3)))
        o = SoftUpdate(tgt.parameters(), net.parameters(), tau=0.25)
        with torch.no_grad():
            for p in net.parameters():
                p.add_(torch.randn_like(p))
        w0, l0 = net[0].weight.detach().clone(), tgt[1].weight.detach().clone()
        o.step()
        ctx.saw("no_soft_embedding")
        ctx.expect(torch.equal(net[0].weight, w0) and torch.equal(tgt[0].weight, w0), "exempt_embedding_is_shared_not_blended")
        ctx.close(tgt[1].weight, 0.25 * net[1].weight + 0.75 * l0, "soft_update_is_polyak")
        ids = torch.randint(4, (5,))
        ctx.expect(torch.equal(tgt[0](ids), net[0](ids)), "exempt_embedding_is_shared_not_blended")


def run(ctx):
    with ctx.part("direct"):
        for k in range(ctx.n(80, 600)):
            direct(ctx, k)
        for k in range(ctx.n(20, 60)):
            embedding(ctx, k)
    with ctx.part("drive"):
        for k in range(ctx.n(72, 640)):
            drive(ctx, k)
