"""C03: optimizer and scheduler options build what they name."""
import vf.quiet  # noqa
import copy
import dataclasses
import math
import types

import torch
import reagent.training  # noqa
from reagent.core.tagged_union import TaggedUnion
from reagent.models.seq2slate import Seq2SlateTransformerNet  # noqa
from reagent.optimizer import scheduler_union
from reagent.optimizer.scheduler_union import LearningRateScheduler__Union
from reagent.optimizer.soft_update import SoftUpdate
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.parameters import EvaluationParameters, Seq2SlateParameters
from reagent.parameters_seq2slate import LearningMethod, SimulationParameters
from reagent.tensorboardX import SummaryWriterContext
from reagent.training import C51Trainer, DQNTrainer, ParametricDQNTrainer, QRDQNTrainer, RewardNetTrainer, SACTrainer, SlateQTrainer, TD3Trainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.imitator_training import ImitatorTrainer
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training.reagent_lightning_module import ReAgentLightningModule

from vf import zoo
from vf.slates import ARCHS, make_net
from vf.train import CriticNet, DetActor, DistNet, GaussActor, LogitActor, QNet

RULE = (
    "Every optimizer and scheduler option, with random hyper-parameters, given as an object or as the nested dictionary a file holds, alone, chained, "
    "and inside real Lightning training, is built and stepped over many steps on random gradients. A torch optimizer and schedulers built directly are "
    "stepped alongside: class, owned parameters, every hyper-parameter, the learning rate and momentum seen before every step, and the parameters after "
    "it must agree; single schedulers are also compared with their closed form. Trainers are built without options to see their declared defaults."
)
REQUIRED = {"optimizers": 100, "hyper": 700, "opt_steps": 350, "schedulers": 150, "chained": 40, "from_dict": 60, "sched_steps": 3000, "closed_form": 60, "lambda_text": 20, "lightning_steps": 120, "trainers": 40, "soft": 20,
            "refused": 80, **{"opt:" + k: 4 for k in ("Adam", "SGD", "AdamW", "Adamax", "LBFGS", "Rprop", "ASGD", "Adadelta", "Adagrad", "RMSprop", "SparseAdam")},
            **{"sched:" + k: 4 for k in ("LambdaLR", "MultiplicativeLR", "CyclicLR", "StepLR", "MultiStepLR", "ExponentialLR", "CosineAnnealingLR", "OneCycleLR", "CosineAnnealingWarmRestarts")}}

OPT = {
    "Adam": lambda r: dict(betas=(r.uniform(.5, .9), r.uniform(.9, .999)), eps=10 ** -r.uniform(6, 9), weight_decay=r.choice([0., .1]), amsgrad=r.random() < .5),
    "AdamW": lambda r: dict(betas=(r.uniform(.5, .9), r.uniform(.9, .999)), eps=10 ** -r.uniform(6, 9), weight_decay=r.choice([0., .1]), amsgrad=r.random() < .5),
    "SGD": lambda r: r.choice([dict(momentum=.9, nesterov=True), dict(momentum=r.random(), dampening=.1), dict(weight_decay=.2, momentum=.5), {}]),
    "Adamax": lambda r: dict(betas=(r.uniform(.5, .9), .99), eps=1e-7, weight_decay=r.choice([0., .1])),
    "SparseAdam": lambda r: dict(betas=(r.uniform(.5, .9), .99), eps=1e-7),
    "LBFGS": lambda r: dict(max_iter=r.randint(1, 6), max_eval=r.choice([None, 9]), tolerance_grad=1e-6, tolerance_change=1e-8, history_size=r.randint(2, 9), line_search_fn=r.choice([None, "strong_wolfe"])),
    "Rprop": lambda r: dict(etas=(r.uniform(.3, .6), r.uniform(1.1, 1.3)), step_sizes=(1e-5, r.uniform(1, 9))),
    "ASGD": lambda r: dict(lambd=1e-3, alpha=.7, t0=r.choice([1., 1e4]), weight_decay=r.choice([0., .1])),
    "Adadelta": lambda r: dict(rho=r.uniform(.7, .95), eps=1e-5, weight_decay=r.choice([0., .1])),
    "Adagrad": lambda r: dict(lr_decay=r.choice([0., .1]), weight_decay=r.choice([0., .1]), initial_accumulator_value=r.choice([0., .5]), eps=1e-8),
    "RMSprop": lambda r: dict(alpha=r.uniform(.8, .99), eps=1e-6, weight_decay=r.choice([0., .1]), momentum=r.choice([0., .5]), centered=r.random() < .5),
    "NAdam": lambda r: dict(betas=(r.uniform(.5, .9), .99), eps=1e-7, weight_decay=r.choice([0., .1]), momentum_decay=.01),
    "RAdam": lambda r: dict(betas=(r.uniform(.5, .9), .99), eps=1e-7, weight_decay=r.choice([0., .1])),
}


def shapes(rng):
    return [rng.choice([(2,), (3, 1), (1, 2, 2)]) for _ in range(rng.randint(1, 3))]


def params(rng, shp=None):
    return [torch.nn.Parameter(torch.randn(*s)) for s in (shp or shapes(rng))]


def some(rng, d):
    return {k: v for k, v in d.items() if rng.random() < .7}


def listed(v):
    """as a configuration file states it"""
    return list(v) if isinstance(v, tuple) else v


def same_groups(ctx, got, ref, fields, mech):
    ctx.expect(len(got) == len(ref), mech + ":groups", "number of parameter groups", got=len(got), want=len(ref))
    for g, r in zip(got, ref):
        for k in r:
            if k == "params":
                continue
            ctx.saw("hyper")
            ctx.expect(g.get(k) == r[k], mech + ":hyper", "a hyper-parameter of the optimizer is not the one configured", name=k, got=g.get(k), want=r[k])


def feed(p, q, rng, sparse=False):
    for a, b in zip(p, q):
        g = torch.randn_like(a) * rng.choice([.1, 1, 3])
        if sparse:
            g = g.to_sparse(1) if g.dim() > 0 else g
        a.grad, b.grad = g.clone(), g.clone()


def pair(ctx, rng, name, kw):
    """the option as object or nested dictionary, and torch's optimizer built directly"""
    if rng.random() < .5:
        opt = Optimizer__Union(**{name: {k: listed(v) for k, v in kw.items()}})
        ctx.saw("from_dict")
    else:
        opt = Optimizer__Union(**{name: classes[name](**kw)})
    return opt


def step_both(ctx, rng, built, ref, p, q, name):
    if name == "LBFGS":
        def close(o, ps):
            n = [0]

            def f():
                n[0] += 1
                o.zero_grad()
                loss = sum(((x - 1) ** 2).sum() for x in ps)
                loss.backward()
                return loss
            return f, n
        f, n = close(built, p)
        h, m = close(ref, q)
        built.step(f)
        ref.step(h)
        ctx.expect(n == m, "closure", "the closure was evaluated another number of times", got=n, want=m)
    else:
        feed(p, q, rng, name == "SparseAdam")
        if rng.random() < .3:
            calls = []
            built.step(lambda: calls.append(1) or torch.zeros(()))
            ctx.expect(calls == [1], "closure", "the closure was not evaluated once", got=len(calls))
        else:
            built.step()
        ref.step()


def optimizers(ctx, rng, name):
    ctx.saw("optimizers")
    ctx.saw("opt:" + name)
    kw = some(rng, OPT[name](rng)) if rng.random() < .85 else {}
    if rng.random() < .8:
        kw["lr"] = rng.choice([.1, .01, rng.uniform(.001, .5)])
    if kw.get("nesterov") and not kw.get("momentum"):
        kw.pop("nesterov")
    opt = pair(ctx, rng, name, kw)
    shp = shapes(rng)
    p = params(rng, shp)
    q = [torch.nn.Parameter(x.detach().clone()) for x in p]
    form = rng.choice(["list", "iter", "groups"]) if name not in ("LBFGS",) else rng.choice(["list", "iter"])
    arg = dict(list=lambda: p, iter=lambda: iter(p), groups=lambda: [dict(params=[x], **({"lr": .05 * (i + 1)} if i else {})) for i, x in enumerate(p)])[form]()
    built = (opt if rng.random() < .5 else opt.value).make_optimizer(arg)
    cfg = opt.value
    # what torch builds from the stated values and, for the rest, the option's own declared defaults
    full = {f.name: getattr(cfg, f.name) for f in dataclasses.fields(cfg) if f.name != "lr_schedulers"}
    for k, v in kw.items():
        ctx.expect(full[k] == v or list(full[k]) == list(v), "stated", "the option does not hold the value stated", name=k, got=full[k], want=v)
    cls = getattr(torch.optim, name)
    targ = dict(list=lambda: q, iter=lambda: iter(q), groups=lambda: [dict(params=[x], **({"lr": .05 * (i + 1)} if i else {})) for i, x in enumerate(q)])[form]()
    ref = cls(targ, **full)
    # where torch has a default of its own for an option that leaves one implicit, they agree (SGD's lr apart, which torch 1.8 required)
    tdef = cls([torch.nn.Parameter(torch.zeros(1))], **({"lr": .001} if name == "SGD" else {})).param_groups[0]
    ddef = classes[name]().make_optimizer([torch.nn.Parameter(torch.zeros(1))]).param_groups[0]
    ctx.expect({k: v for k, v in tdef.items() if k not in ("params", "lr")} == {k: v for k, v in ddef.items() if k not in ("params", "lr")}, "default", "an option's defaults differ from the optimizer's", opt=name,
               got={k: v for k, v in ddef.items() if k != "params"}, want={k: v for k, v in tdef.items() if k != "params"})
    ctx.expect(type(built.optimizer) is cls, "class", "another class was built than named", got=type(built.optimizer).__name__, want=name)
    own = [x for g in built.param_groups for x in g["params"]]
    ctx.expect(len(own) == len(p) and all(a is b for a, b in zip(own, p)), "owned", "the optimizer does not own exactly the parameters given")
    same_groups(ctx, built.param_groups, ref.param_groups, full, "built")
    for _ in range(rng.randint(2, 6)):
        step_both(ctx, rng, built, ref, p, q, name)
        ctx.saw("opt_steps")
        ctx.expect(all(torch.equal(a, b) for a, b in zip(p, q)), "step", "parameters after a step are not those of the named optimizer", opt=name, kw=kw)
        built.zero_grad()
        ctx.expect(all(x.grad is None or not x.grad.to_dense().any() for x in p), "zero-grad", "gradients remain after zero_grad")
        ref.zero_grad()
    for bad in (lambda: classes[name](lr=.1, no_such=1), lambda: Optimizer__Union(**{name: {"no_such": 1}}), lambda: Optimizer__Union(NoSuch={}), lambda: classes[name](lr=-1. if name != 'LBFGS' else 'x').make_optimizer(params(rng)), lambda: classes[name](lr="fast")):
        try:
            bad()
            ctx.expect(False, "refused", "an unknown or impossible option was accepted", opt=name)
        except (TypeError, ValueError, AssertionError):
            ctx.saw("refused")


# ------------------------------------------------------------------ schedulers
def sched(rng, name, lr):
    """random options, and (where simple) the closed form of the learning rate before step t"""
    r = rng
    if name == "StepLR":
        k, g = r.randint(1, 6), r.uniform(.3, .9)
        return dict(step_size=k, **({"gamma": g} if r.random() < .7 else {})), lambda kw: lambda t: lr * kw.get("gamma", .1) ** (t // k)
    if name == "MultiStepLR":
        ms = sorted(r.sample(range(1, 20), r.randint(1, 4)))
        return dict(milestones=ms, **({"gamma": r.uniform(.3, .9)} if r.random() < .7 else {})), lambda kw: lambda t: lr * kw.get("gamma", .1) ** sum(m <= t for m in ms)
    if name == "ExponentialLR":
        g = r.uniform(.5, .99)
        return dict(gamma=g), lambda kw: lambda t: lr * g ** t
    if name == "CosineAnnealingLR":
        T, e = r.randint(2, 12), r.choice([0, .001])
        return dict(T_max=T, **({"eta_min": e} if e else {})), lambda kw: lambda t: e + (lr - e) * (1 + math.cos(math.pi * t / T)) / 2
    if name == "CosineAnnealingWarmRestarts":
        T, m = r.randint(1, 6), r.choice([1, 2])

        def f(t):
            i = T
            while t >= i:
                t -= i
                i *= m
            return lr * (1 + math.cos(math.pi * t / i)) / 2
        return dict(T_0=T, **({"T_mult": m} if m > 1 else {})), lambda kw: f
    if name == "LambdaLR":
        c = r.randint(2, 9)
        text = r.choice([f"lambda t: 1 / (1 + t / {c})", f"lambda n: 0.5 ** (n // {c})"])
        return dict(lr_lambda=text if r.random() < .6 else eval(text)), lambda kw: lambda t: lr * eval(text)(t)
    if name == "MultiplicativeLR":
        c = round(r.uniform(.5, .99), 3)
        text = f"lambda t: {c}"
        return dict(lr_lambda=text if r.random() < .6 else eval(text)), lambda kw: lambda t: lr * c ** t
    if name == "CyclicLR":
        kw = dict(base_lr=.01, max_lr=r.uniform(.1, .5), step_size_up=r.randint(1, 6), mode=r.choice(["triangular", "triangular2", "exp_range"]), gamma=r.choice([1., .9]))
        if r.random() < .4:
            kw["step_size_down"] = r.randint(1, 5)
        if r.random() < .3:
            kw.update(scale_fn=r.choice(["lambda x: 0.5 ** (x - 1)", "lambda x: 1 / x"]), scale_mode="cycle")
        if r.random() < .5:
            kw.update(cycle_momentum=r.random() < .5, base_momentum=.7, max_momentum=.95)
        return kw, None
    if name == "OneCycleLR":
        kw = dict(max_lr=r.uniform(.1, .5), **r.choice([dict(total_steps=r.randint(25, 60)), dict(epochs=5, steps_per_epoch=r.randint(5, 9))]))
        for k, v in dict(pct_start=r.uniform(.2, .5), anneal_strategy=r.choice(["cos", "linear"]), cycle_momentum=r.random() < .5, base_momentum=.8, max_momentum=.9, div_factor=10., final_div_factor=50., three_phase=r.random() < .5).items():
            if r.random() < .5:
                kw[k] = v
        return kw, None
    if name == "ConstantLR":
        return dict(factor=.5, total_iters=r.randint(1, 9)), None
    if name == "LinearLR":
        return dict(start_factor=.5, end_factor=r.uniform(.1, 1.), total_iters=r.randint(1, 9)), None
    if name == "PolynomialLR":
        return dict(total_iters=r.randint(1, 9), power=r.choice([1., 2.])), None


BASE = ["LambdaLR", "MultiplicativeLR", "CyclicLR", "StepLR", "MultiStepLR", "ExponentialLR", "CosineAnnealingLR", "OneCycleLR", "CosineAnnealingWarmRestarts"]


def offered():
    return [f.name for f in dataclasses.fields(LearningRateScheduler__Union)]


def direct(name, kw, opt):
    """torch's scheduler built directly"""
    kw = {k: eval(v) if k in ("lr_lambda", "scale_fn") and isinstance(v, str) else v for k, v in kw.items()}
    return getattr(torch.optim.lr_scheduler, name)(opt, **kw)


def sched_option(ctx, rng, name, kw, as_dict):
    cls = {f.name: f.type for f in dataclasses.fields(LearningRateScheduler__Union)}[name].__args__[0]
    if any(isinstance(v, str) and v.startswith("lambda") for v in kw.values()):
        ctx.saw("lambda_text")
    ctx.saw("sched:" + name)
    ctx.saw("schedulers")
    if as_dict:
        return {name: dict(kw)}
    obj = cls(**kw)
    return LearningRateScheduler__Union(**{name: obj}) if rng.random() < .2 else obj


def watch(o):
    return [(g["lr"], g.get("momentum"), g.get("betas")) for g in o.param_groups]


def schedulers(ctx, rng, name):
    lr = rng.choice([.1, .3, rng.uniform(.01, .5)])
    oname = rng.choice(["SGD", "Adam", "RMSprop"]) if name not in ("CyclicLR", "OneCycleLR") else rng.choice(["SGD", "Adam"])
    okw = dict(lr=lr, **({"momentum": .9} if oname == "SGD" and (name in ("CyclicLR", "OneCycleLR") or rng.random() < .5) else {}))
    names = [name]
    if name not in ("OneCycleLR", "CyclicLR") and rng.random() < .45:
        names += [rng.choice([n for n in BASE if n not in ("OneCycleLR", "CyclicLR")]) for _ in range(rng.randint(1, 2))]
        ctx.saw("chained")
    kws = [sched(rng, n, lr) for n in names]
    as_dict = rng.random() < .5 and not any(callable(v) for kw, _ in kws for v in kw.values())
    options = [sched_option(ctx, rng, n, kw, as_dict) for n, (kw, _) in zip(names, kws)]
    if as_dict:
        ctx.saw("from_dict")
        opt = Optimizer__Union(**{oname: dict(okw, lr_schedulers=options)})
    else:
        opt = Optimizer__Union(**{oname: classes[oname](**okw, lr_schedulers=options)})
    shp = shapes(rng)
    p = params(rng, shp)
    q = [torch.nn.Parameter(x.detach().clone()) for x in p]
    built = opt.make_optimizer(p)
    ref = getattr(torch.optim, oname)(q, **okw)
    sref = [direct(n, kw, ref) for n, (kw, _) in zip(names, kws)]
    ctx.expect([type(s) for s in built.lr_schedulers] == [type(s) for s in sref], "scheduler-class", "other schedulers were built than named, or in another order", got=[type(s).__name__ for s in built.lr_schedulers], want=names)
    form = kws[0][1](kws[0][0]) if len(names) == 1 and kws[0][1] is not None else None
    for t in range(24):
        a, b = watch(built), watch(ref)
        ctx.saw("sched_steps")
        if not ctx.expect(a == b, "rate", "the learning rate (or momentum) before a step is not the one of the named schedulers", names=names, t=t, got=a, want=b, options=str(kws)[:200]):
            return
        if form is not None:
            ctx.saw("closed_form")
            ctx.close(a[0][0], form(t), "closed-form", rtol=1e-6, atol=1e-9)
        feed(p, q, rng)
        built.step()
        ref.step()
        for s in sref:
            s.step()
    ctx.expect(all(torch.equal(a, b) for a, b in zip(p, q)), "sched-params", "parameters after a schedule differ", names=names)


def availability(ctx):
    from reagent.optimizer.utils import is_torch_lr_scheduler, is_torch_optimizer

    opts = [f.name for f in dataclasses.fields(Optimizer__Union)]
    want = [n for n in dir(torch.optim) if isinstance(getattr(torch.optim, n), type) and issubclass(getattr(torch.optim, n), torch.optim.Optimizer) and n != "Optimizer"]
    ctx.expect(set(opts) == set(want), "offered-optimizers", "the optimizers offered are not those of torch", missing=sorted(set(want) - set(opts)), extra=sorted(set(opts) - set(want)))
    ctx.expect(set(BASE) <= set(offered()), "offered-schedulers", "a scheduler is not offered", missing=sorted(set(BASE) - set(offered())))
    for n in opts:
        ctx.expect(is_torch_optimizer(getattr(torch.optim, n)), "is-optimizer", "an optimizer is not recognised", name=n)
    for n in BASE:
        ctx.expect(is_torch_lr_scheduler(getattr(torch.optim.lr_scheduler, n)), "is-scheduler", "a scheduler is not recognised", name=n)
    for x in (torch.optim.Optimizer, torch.nn.Module, 3, "Adam", None, torch.optim.Adam):
        if x is not torch.optim.Adam:
            ctx.expect(not is_torch_optimizer(x), "not-optimizer", "something else counts as an optimizer", what=str(x))
        ctx.expect(not is_torch_lr_scheduler(x), "not-scheduler", "something else counts as a scheduler", what=str(x))
    for kw in ({}, dict(lr=.5), dict(lr=.2, amsgrad=True)):
        d = Optimizer__Union.default(**kw)
        ctx.expect(d == Optimizer__Union(Adam=classes["Adam"](**kw)), "default-union", "the default option is not Adam with the given values", got=repr(d)[:200])


# ------------------------------------------------------------------ in training
class Tiny(ReAgentLightningModule):
    def __init__(self, opts, seen):
        super().__init__()
        self.opts, self.seen = opts, seen
        self.w = torch.nn.ParameterList([torch.nn.Parameter(torch.zeros(2)) for _ in opts])
        self.built = None

    def configure_optimizers(self):
        if self.built is None:
            self.built = [o.make_optimizer([p]) for o, p in zip(self.opts, self.w)]
        return self.built

    def train_step_gen(self, training_batch, batch_idx: int):
        for i, p in enumerate(self.w):
            self.seen[i].append(self.built[i].param_groups[0]["lr"])
            yield ((p - training_batch) ** 2).sum()


def training(ctx, rng):
    SummaryWriterContext._reset_globals()
    opts, refs, q = [], [], []
    n, epochs = rng.randint(3, 8), rng.randint(1, 3)
    for _ in range(rng.randint(1, 3)):
        lr, name = rng.uniform(.01, .1), rng.choice([b for b in BASE if b not in ("OneCycleLR", "CyclicLR")])
        kw, _ = sched(rng, name, lr)
        with_s = rng.random() < .8
        opts.append(Optimizer__Union(SGD=classes["SGD"](lr=lr, lr_schedulers=[sched_option(ctx, rng, name, kw, False)] if with_s else [])))
        w = torch.nn.Parameter(torch.zeros(2))
        r = torch.optim.SGD([w], lr=lr)
        refs.append((r, direct(name, kw, r) if with_s else None, w))
    seen, want = [[] for _ in opts], [[] for _ in opts]
    t = Tiny(opts, seen)
    batches = [torch.randn(2) for _ in range(n)]
    t2 = zoo.lightning(epochs=epochs)
    t2.fit(t, zoo.dataset(batches))
    for _ in range(epochs):
        for b in batches:
            for i, (r, s, w) in enumerate(refs):
                want[i].append(r.param_groups[0]["lr"])
                r.zero_grad()
                ((w - b) ** 2).sum().backward()
                r.step()
                if s is not None:
                    s.step()
                ctx.saw("lightning_steps")
    ctx.expect(seen == want, "training-rate", "the learning rates followed during training are not the schedule's", got=[s[:8] for s in seen], want=[s[:8] for s in want])
    for p, (_, _, w) in zip(t.w, refs):
        ctx.close(p.detach(), w.detach(), "training-params", rtol=1e-5, atol=1e-6)


def trainers(ctx, rng):
    """trainers built without options use the declared default option"""
    s, a = rng.randint(1, 3), rng.randint(2, 3)
    names = [f"a{i}" for i in range(a)]
    q, c, d = lambda: QNet(s, a), lambda: CriticNet(s, a), copy.deepcopy
    net = make_net(rng, ARCHS[0], 3, 2)
    pol = types.SimpleNamespace(scorer=q(), sampler=None)
    n1, v = q(), q()
    par = Seq2SlateParameters(learning_method=LearningMethod.SIMULATION, simulation=SimulationParameters(reward_name_weight={"m": 1.}, reward_name_power={"m": 1.}, reward_name_path={"m": "m"}))
    attr = lambda *names: lambda t: [getattr(t, k) for k in names]
    conf = lambda t: t.configure_optimizers()
    no_cpe = EvaluationParameters(calc_cpe_in_training=False)
    c1 = c()
    lst = [
        ("DQN", lambda: DQNTrainer(n1, d(n1), None, actions=names, evaluation=no_cpe), conf, lambda t: [t.q_network]), ("C51", lambda: (lambda k: C51Trainer(k, d(k), actions=names))(zoo.CatNet(s, a, 51)), conf, lambda t: [t.q_network]),
        ("QRDQN", lambda: (lambda k: QRDQNTrainer(k, d(k), actions=names, evaluation=no_cpe))(DistNet(s, a, 51)), conf, lambda t: [t.q_network]),
        ("SlateQ", lambda: SlateQTrainer(c1, d(c1)), conf, lambda t: [t.q_network]), ("ParametricDQN", lambda: ParametricDQNTrainer(c1, d(c1), c()), conf, lambda t: [t.q_network, t.reward_network]),
        ("TD3", lambda: TD3Trainer(DetActor(s, a), c()), conf, lambda t: [t.q1_network, t.actor_network]), ("SAC", lambda: SACTrainer(GaussActor(s, a), c()), conf, lambda t: [t.q1_network, t.actor_network, [t.log_alpha]]),
        ("CRR", lambda: DiscreteCRRTrainer(LogitActor(s, a), q(), None, actions=names, evaluation=no_cpe), conf, lambda t: [t.q1_network, t.actor_network]),
        ("RewardNet", lambda: RewardNetTrainer(q()), attr("opt"), lambda t: [t.reward_net]), ("Imitator", lambda: ImitatorTrainer(q()), attr("imitator_optimizer"), lambda t: [t.imitator]),
        ("PPO", lambda: PPOTrainer(pol, value_net=v), attr("optimizer", "value_net_optimizer"), lambda t: [t.scorer, t.value_net]),
        ("Seq2Slate", lambda: Seq2SlateTrainer(net), attr("rl_opt"), lambda t: [t.seq2slate_net]), ("Seq2SlateDR", lambda: Seq2SlateDifferentiableRewardTrainer(net, Seq2SlateParameters(learning_method=LearningMethod.DIFFERENTIABLE_REWARD), 4), attr("optimizer"), lambda t: [t.seq2slate_net]),
        ("Seq2SlateTF", lambda: Seq2SlateTeacherForcingTrainer(net, Seq2SlateParameters(learning_method=LearningMethod.TEACHER_FORCING), 4), attr("optimizer"), lambda t: [t.seq2slate_net]),
        ("Seq2SlateAttn", lambda: Seq2SlatePairwiseAttnTrainer(net), attr("optimizer"), lambda t: [t.seq2slate_net]), ("Seq2SlateSim", lambda: Seq2SlateSimulationTrainer(net, 4, par), lambda t: [t.trainer.rl_opt], lambda t: [t.seq2slate_net]),
    ]
    want = torch.optim.Adam([torch.nn.Parameter(torch.zeros(1))]).param_groups[0]
    for name, make, get, nets in lst:
        with ctx.case("trainer", dict(name=name)):
            t = make()
            ctx.saw("trainers")
            opts = [o for o in get(t) if not isinstance(getattr(o, "optimizer", o), SoftUpdate)]
            ns = nets(t)
            ctx.expect(len(opts) == len(ns), "trainer-optimizers", "number of gradient optimizers of a trainer built without options", trainer=name, got=len(opts), want=len(ns))
            for o, k in zip(opts, ns):
                own = [id(x) for g in o.param_groups for x in g["params"]]
                exp = [id(x) for x in (k if isinstance(k, list) else k.parameters())]
                ctx.expect(type(o.optimizer) is torch.optim.Adam and len(o.param_groups) == 1 and own == exp and not o.lr_schedulers, "trainer-default", "a trainer built without options does not use the declared default (Adam over the network's parameters)", trainer=name, got=type(o.optimizer).__name__)
                ctx.expect({x: y for x, y in o.param_groups[0].items() if x != "params"} == {x: y for x, y in want.items() if x != "params"}, "trainer-default-hyper", "default hyper-parameters", trainer=name)


def soft(ctx, rng):
    ctx.saw("soft")
    shp = shapes(rng)
    a, b = params(rng, shp), params(rng, shp)
    a0, b0, tau = [x.detach().clone() for x in a], [x.detach().clone() for x in b], rng.choice([0., 1., rng.random()])
    o = SoftUpdate(iter(a), iter(b), tau=tau)
    o.step()
    ctx.expect(all(torch.equal(x, y) for x, y in zip(b, b0)), "soft-source", "a soft update changed its source")
    for x, x0, y0 in zip(a, a0, b0):
        ctx.close(x.detach(), tau * y0 + (1 - tau) * x0, "soft-target", rtol=1e-5, atol=1e-6)


def run(ctx):
    with ctx.case("availability", {}):
        availability(ctx)
    for name in sorted(OPT):
        if not hasattr(torch.optim, name):
            continue
        for i in range(ctx.n(14, 150)):
            with ctx.case("optimizer", dict(i=i, name=name)):
                ctx.seed_all(f"o{name}{i}")
                optimizers(ctx, ctx.sub(f"o{name}{i}"), name)
    for name in BASE + [n for n in ("ConstantLR", "LinearLR", "PolynomialLR") if n in offered()]:
        for i in range(ctx.n(20, 200)):
            with ctx.case("scheduler", dict(i=i, name=name)):
                ctx.seed_all(f"s{name}{i}")
                schedulers(ctx, ctx.sub(f"s{name}{i}"), name)
    for i in range(ctx.n(20, 120)):
        with ctx.case("training", dict(i=i)):
            ctx.seed_all(f"t{i}")
            training(ctx, ctx.sub(f"t{i}"))
    for i in range(ctx.n(5, 20)):
        ctx.seed_all(f"tr{i}")
        trainers(ctx, ctx.sub(f"tr{i}"))
    for i in range(ctx.n(40, 300)):
        with ctx.case("soft", dict(i=i)):
            ctx.seed_all(f"so{i}")
            soft(ctx, ctx.sub(f"so{i}"))
