"""T12: the training loop feeds each batch once to every loss, stops on request and resumes exactly."""
import vf.quiet  # noqa
import copy
import os
import types as pt

import torch
import torch.nn as nn
import pytorch_lightning as pl
import reagent.types as rlt
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.optimizer import Optimizer__Union, SoftUpdate
from reagent.tensorboardX import SummaryWriterContext
from reagent.training import StoppingEpochCallback
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.reward_network_trainer import RewardNetTrainer

from vf import zoo
from vf.train import Mlp, torch_opt

RULE = (
    "Real pytorch_lightning runs of every trainer and of scripted modules. A recording wrapper around the step generator "
    "logs (batch, index, yields) and is compared with the data fed; reporter flushes and summary-writer steps are logged; "
    "scripted modules with too many or too few yields must be refused; sessions with a stopping callback, checkpoint and "
    "resume are replayed and compared bit for bit with an uninterrupted run; dictionaries and typed batches must train "
    "identically."
)
REQUIRED = {"batches_logged": 150, "flush": 60, "writer_step": 100, "yield_mismatch": 15, "dict_batch": 20, "session": 20, "resumed": 8, "resume_identical": 8, "state_roundtrip": 10}


class Rep:
    def __init__(self):
        self.ev = []

    def log(self, **kw):
        self.ev.append(("log", sorted(kw)))

    def flush(self, epoch):
        self.ev.append(("flush", epoch))


class Scripted(ReAgentLightningModule):
    """n gradient optimizers + soft update; yields m losses."""

    def __init__(self, n, m):
        super().__init__()
        self.nets = nn.ModuleList([nn.Linear(2, 1) for _ in range(n)])
        self.n, self.m, self.seen = n, m, []

    def configure_optimizers(self):
        return [torch.optim.SGD(x.parameters(), lr=0.01) for x in self.nets]

    def train_step_gen(self, training_batch, batch_idx: int):
        self.seen.append((int(training_batch[0, 0]), batch_idx))
        for i in range(self.m):
            SummaryWriterContext.add_scalar(f"k{i}", float(training_batch[0, 0]))
            yield self.nets[i % self.n](training_batch).mean()


from torch.utils.tensorboard import SummaryWriter


class Writer(SummaryWriter):
    def __init__(self):
        self.calls = []

    def add_scalar(self, key, val, global_step=None, *a, **k):
        self.calls.append((key, val, global_step))


def clone(m):
    c = copy.deepcopy(m)
    c.set_reporter(None)  # the placeholder reporter does not survive deepcopy
    return c


def scripted(ctx, k):
    rng = ctx.sub(f"s{k}")
    ctx.seed_all(f"s{k}")
    n = rng.randint(1, 3)
    d = rng.choice([0, 0, 0, -1, 1, 2])
    m = max(0, n + d)
    nb, ep = rng.randint(1, 5), rng.randint(1, 3)
    data = [torch.full((2, 2), float(10 * (i + 1))) for i in range(nb)]
    mod = Scripted(n, m)
    rep = Rep()
    mod.set_reporter(rep)
    w = Writer()
    with ctx.case("scripted", dict(optimizers=n, yields=m, batches=nb, epochs=ep), distinct=k):
        SummaryWriterContext._reset_globals()
        SummaryWriterContext.push(w)
        try:
            try:
                zoo.lightning(ep).fit(mod, zoo.dataset(data))
                err = None
            except Exception as e:  # noqa
                err = e
        finally:
            SummaryWriterContext.pop()
        if m != n:
            ctx.saw("yield_mismatch")
            ctx.expect(err is not None, "wrong_number_of_losses_is_refused", f"{m} losses for {n} optimizers trained silently")
            return
        if err is not None:
            raise err
        ctx.saw("batches_logged", len(mod.seen))
        ctx.expect(mod.seen == [(10 * (i + 1), i) for _ in range(ep) for i in range(nb)], "each_batch_once_in_order", f"{mod.seen}")
        fl = [e[1] for e in rep.ev if e[0] == "flush"]
        ctx.saw("flush", len(fl))
        ctx.expect(fl == list(range(ep)), "reporter_flushed_once_per_epoch", f"{fl}")
        steps = [s for kk, _, s in w.calls if kk == "k0"]
        ctx.saw("writer_step", len(steps))
        ctx.expect(all(steps[i + 1] - steps[i] == 1 for i in range(len(steps) - 1)) and len(steps) == nb * ep, "global_step_counts_batches", f"{steps}")
        for kk, v, s in w.calls:
            ctx.expect(v == mod.seen[s - steps[0]][0], "values_logged_under_their_step", f"{kk} {v} at {s}")


def wrap(mod):
    log = []
    orig = mod.train_step_gen

    def rec(training_batch, batch_idx):
        entry = [training_batch, batch_idx, 0]
        log.append(entry)
        for x in orig(training_batch, batch_idx):
            entry[2] += 1
            yield x

    mod.train_step_gen = rec
    return log


def real(ctx, k):
    rng = ctx.sub(f"r{k}")
    ctx.seed_all(f"r{k}")
    z = zoo.build(rng, zoo.KINDS[k % len(zoo.KINDS)])
    nb, ep = rng.randint(1, 4), rng.choice([1, 2])
    batches = [z.make_batch() for _ in range(nb)]
    with ctx.case("loop:" + z.kind, dict(z.desc, nb=nb, ep=ep), distinct=("r", k)):
        log = wrap(z.module)
        rep = Rep()
        z.module.set_reporter(rep)
        zoo.lightning(ep).fit(z.module, zoo.dataset(batches))
        ctx.saw("batches_logged", len(log))
        ctx.expect([(id(b), i) for b, i, _ in log] == [(id(batches[i]), i) for _ in range(ep) for i in range(nb)], "each_batch_once_in_order", f"{[i for _, i, _ in log]}")
        want = len(z.owned) + 1
        ctx.expect(all(y == want for _, _, y in log), "one_loss_per_optimizer", f"{[y for _, _, y in log]} want {want}")
        # reports of an epoch come before its flush
        fl = [e[1] for e in rep.ev if e[0] == "flush"]
        ctx.saw("flush", len(fl))
        ctx.expect(fl == list(range(ep)), "reporter_flushed_once_per_epoch", f"{fl}")
        if rep.ev:
            ctx.expect(rep.ev[-1][0] == "flush", "reports_precede_the_flush", f"{rep.ev[-3:]}")
        per, cur = [], 0
        for e in rep.ev:
            if e[0] == "flush":
                per.append(cur)
                cur = 0
            else:
                cur += 1
        ctx.expect(len(set(per)) <= 1 or z.delay > 1, "every_epoch_reports_alike", f"{per}")


def as_dict(kind, b):
    d = dict(state_features=b.state.float_features, next_state_features=b.next_state.float_features, reward=b.reward, time_diff=b.time_diff, step=b.step, not_terminal=b.not_terminal)
    if kind in ("dqn", "c51", "qrdqn", "crr"):
        d.update(action=b.action, next_action=b.next_action, possible_actions_mask=b.possible_actions_mask, possible_next_actions_mask=b.possible_next_actions_mask, extras=b.extras)
    elif kind == "parametric":
        d.update(action=b.action.float_features, next_action=b.next_action.float_features, possible_actions=b.possible_actions.float_features, possible_actions_mask=b.possible_actions_mask,
                 possible_next_actions=b.possible_next_actions.float_features, possible_next_actions_mask=b.possible_next_actions_mask, extras=b.extras)
    elif kind == "slateq":
        d.pop("reward")
        d.update(action=b.action, next_action=b.next_action, position_reward=b.reward, reward_mask=b.reward_mask, candidate_features=b.state.candidate_docs.float_features, item_mask=b.state.candidate_docs.mask,
                 item_probability=b.state.candidate_docs.value, next_candidate_features=b.next_state.candidate_docs.float_features, next_item_mask=b.next_state.candidate_docs.mask,
                 next_item_probability=b.next_state.candidate_docs.value)
    else:
        d.update(action=b.action.float_features, next_action=b.next_action.float_features, extras=b.extras)
    return d


def params(m):
    return {n: p.detach().clone() for n, p in m.named_parameters()}


def diff(a, b):
    return sorted(n for n in a if n not in b or not torch.equal(a[n], b[n]))


def dicts(ctx, k):
    rng = ctx.sub(f"d{k}")
    ctx.seed_all(f"d{k}")
    z = zoo.build(rng, zoo.KINDS[k % len(zoo.KINDS)])
    batches = [z.make_batch() for _ in range(2)]
    other = clone(z.module)
    with ctx.case("dict:" + z.kind, z.desc, distinct=("d", k)):
        s = rng.randrange(10 ** 6)
        torch.manual_seed(s)
        zoo.lightning(1).fit(z.module, zoo.dataset(batches))
        torch.manual_seed(s)
        zoo.lightning(1).fit(other, zoo.dataset([as_dict(z.kind, b) for b in batches]))
        ctx.saw("dict_batch", 2)
        d = diff(params(z.module), params(other))
        ctx.expect(not d, "dictionary_batches_train_identically", f"{d[:5]}")


class Epochs(pl.Callback):
    def __init__(self):
        self.ep, self.batches, self.total = [], 0, 0

    def on_train_epoch_start(self, trainer, m):
        self.ep.append(trainer.current_epoch)
        self.batches = 0
        torch.manual_seed(trainer.current_epoch)

    def on_train_batch_start(self, trainer, *a):
        self.batches += 1
        self.total += 1
        torch.manual_seed(trainer.current_epoch * 1000 + self.batches)


def sessions(ctx, k):
    rng = ctx.sub(f"e{k}")
    ctx.seed_all(f"e{k}")
    kind = zoo.KINDS[k % len(zoo.KINDS)]
    z = zoo.build(rng, kind)
    nb = rng.randint(1, 3)
    batches = [z.make_batch() for _ in range(nb)]
    mod = z.module
    blank = clone(mod)
    straight = clone(mod)
    plan = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    path = os.path.abspath(f"ckpt{k}")
    with ctx.case("sessions:" + kind, dict(z.desc, plan=plan, nb=nb), distinct=("e", k)):
        done, states = 0, []
        for i, n in enumerate(plan):
            e = Epochs()
            cur = mod
            if i:
                cur = clone(blank)
                with torch.no_grad():
                    for p in cur.parameters():
                        p.zero_()
            tr = zoo.lightning(1000, callbacks=[StoppingEpochCallback(n), e], **(dict(resume_from_checkpoint=path) if i else {}))
            tr.fit(cur, zoo.dataset(batches))
            ctx.saw("session")
            ctx.saw("resumed", i > 0)
            ctx.require(e.ep == list(range(done, done + n)), "session_trains_exactly_the_requested_epochs", f"session {i} asked {n}: epochs {e.ep} after {done} done")
            ctx.expect(e.total == n * nb, "session_trains_every_batch", f"{e.total} {n}x{nb}")
            done += n
            cur._cleanly_stopped[0] = True
            tr.save_checkpoint(path)
            states.append(params(cur))
            states.append(dict(cur.named_buffers()))
            last = cur
        # the same batches and seeds in one process without checkpoints give the same parameters
        if len(plan) > 1:
            zoo.lightning(sum(plan), callbacks=[Epochs()]).fit(straight, zoo.dataset(batches))
            a, b = params(last), params(straight)
            worst = max((float((a[n] - b[n]).abs().max()) for n in a), default=0.0)
            ctx.saw("resume_identical")
            ctx.expect(worst < 1e-4, "resumed_training_equals_uninterrupted", f"parameters differ by {worst}: {diff(a, b)[:4]}")
    if os.path.exists(path):
        os.remove(path)
    with ctx.case("unclean_resume", k, distinct=("u", k)):
        m = clone(blank)
        cb = StoppingEpochCallback(3)
        cb.on_pretrain_routine_end(None, m)
        first = int(m._next_stopping_epoch)
        cb.on_pretrain_routine_end(None, m)  # interrupted: not cleanly stopped
        ctx.expect(first == 2 and int(m._next_stopping_epoch) == 2 and not bool(m._cleanly_stopped), "interrupted_session_keeps_its_goal", f"{first} {int(m._next_stopping_epoch)}")
        again = clone(blank)
        again.load_state_dict(m.state_dict())
        ctx.expect(int(again._next_stopping_epoch) == 2 and not bool(again._cleanly_stopped), "stopping_goal_is_part_of_the_state")
        m._cleanly_stopped[0] = True
        cb.on_pretrain_routine_end(None, m)
        ctx.expect(int(m._next_stopping_epoch) == 5, "clean_session_extends_the_goal", f"{int(m._next_stopping_epoch)}")


def roundtrip(ctx, k):
    rng = ctx.sub(f"rt{k}")
    ctx.seed_all(f"rt{k}")

    class Sc(nn.Module):
        def __init__(self):
            super().__init__()
            self.m = Mlp(2, 3)

        def forward(self, st, mask=None):
            return self.m(st.float_features)

    class V(Mlp):
        def forward(self, st):
            return super().forward(st.float_features)

    class R(Mlp):
        def forward(self, b):
            return pt.SimpleNamespace(predicted_reward=super().forward(b.state.float_features))

    kind = ["reinforce", "ppo", "reward"][k % 3]
    use_v = rng.random() < 0.5

    def mk():
        if kind == "reward":
            n = R(2, 1)
            return RewardNetTrainer(n, optimizer=Optimizer__Union.default()), dict(reward_net=n)
        sc, v = Sc(), V(2, 1) if use_v else None
        pol = pt.SimpleNamespace(scorer=sc, sampler=SoftmaxActionSampler(1.0))
        t = Reinforce(pol, ReinforceParams(normalize=False), v) if kind == "reinforce" else PPOTrainer(policy=pol, normalize=False, value_net=v, update_freq=1)
        return t, dict(scorer=sc, **({"value_net": v} if use_v else {}))

    with ctx.case("state_roundtrip", dict(kind=kind, value_net=use_v), distinct=("rt", kind, use_v)):
        (a, na), (b, nb) = mk(), mk()
        st = copy.deepcopy(a.state_dict())
        torch.save(st, "st.pt")
        b.load_state_dict(torch.load("st.pt", weights_only=False))
        ctx.saw("state_roundtrip")
        for name in na:
            ctx.expect(not diff(params(na[name]), params(nb[name])), "saved_state_restores_the_network", f"{kind}.{name}")


def run(ctx):
    with ctx.part("scripted"):
        for k in range(ctx.n(60, 500)):
            scripted(ctx, k)
    with ctx.part("real"):
        for k in range(ctx.n(40, 320)):
            real(ctx, k)
    with ctx.part("dicts"):
        for k in range(ctx.n(32, 240)):
            dicts(ctx, k)
    with ctx.part("sessions"):
        for k in range(ctx.n(24, 160)):
            sessions(ctx, k)
    with ctx.part("roundtrip"):
        for k in range(ctx.n(24, 60)):
            roundtrip(ctx, k)
