"""C01: observers and aggregators summarise exactly the values observed."""
import vf.quiet  # noqa
import collections
import math

import numpy as np
import torch
import reagent.training  # noqa
from reagent.core import aggregators as agg
from reagent.core.observers import CompositeObserver, EpochEndObserver, IntervalAggregatingObserver, TensorBoardScalarObserver, ValueListObserver
from reagent.core.report_utils import calculate_recent_window_average, get_mean_of_recent_values
from reagent.core.tracker import Aggregator, ObservableMixin, Observer, observable
from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
from reagent.training.loss_reporter import LossReporter
from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
from reagent.workflow.reporters.parametric_dqn_reporter import ParametricDQNReporter
from reagent.workflow.reporters.reporter_base import DataPointsPerEpochMixin, ReporterBase
from reagent.workflow.reporters.sac_reporter import SACReporter
from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
from reagent.workflow.reporters.td3_reporter import TD3Reporter

from vf import zoo
from vf.writers import Rec

RULE = (
    "Random histories of notifications (values of every type, several keys at once, omitted values, epochs of random length) are delivered "
    "through observables, composite observers, interval aggregation and every bundled reporter. A raw log kept at the call is cut at every "
    "N-th value and at each epoch end and summarised in float64; aggregated values, summary-writer calls (tags, numbers, steps, order), "
    "counts and distributions must equal it, chunk by chunk, with nothing left over, lost or counted twice. Reporters are also attached to "
    "real trainers and their state compared with what those trainers logged."
)
REQUIRED = {"notifications": 1500, "delivered": 2000, "skipped_none": 60, "unknown_keys": 15, "interval_flushes": 250, "epoch_flushes": 150, "empty_flushes": 20, "aggregations": 400,
            "reporter_logs": 600, "reporter_flushes": 120, "tb_scalars": 800, "tb_histograms": 300, "trainer_batches": 100, "trainer_logged": 300, "distributions": 60, "recent": 20,
            "refusals": 60, "loss_board": 10, "windows": 60}


def f64(t):
    return np.asarray(torch.as_tensor(t).detach().cpu().numpy(), dtype=np.float64)


# ------------------------------------------------------------------ delivery
def delivery(ctx, rng):
    """values given to notify_observers reach each observer once, in order, under their key"""
    keys = [f"k{i}" for i in range(rng.randint(1, 5))]
    types = {k: rng.choice([torch.Tensor, float, str]) for k in keys}
    log = []

    class Spy(Observer):
        def __init__(self, name, obs):
            super().__init__(obs)
            self.name = name

        def update(self, key, value):
            log.append((self.name, key, value))

    if rng.random() < .5:
        @observable(**types)
        class Source:
            def __init__(self, v):
                self.v = v
        src = Source(3)
        ctx.expect(src.v == 3, "observable-constructor", "the decorated class's own constructor did not run")
    else:
        class Mixed(ObservableMixin):
            @property
            def _observable_value_types(self):
                return types
        src = Mixed()
    plan = []
    for j in range(rng.randint(1, 5)):
        mine = rng.sample(keys + ["other"], rng.randint(1, len(keys)))
        spy = Spy(j, mine)
        if rng.random() < .35:
            inner = [spy] + [Spy(f"{j}.{i}", rng.sample(keys, rng.randint(1, len(keys)))) for i in range(rng.randint(1, 3))]
            comp = CompositeObserver(inner)
            ctx.expect(sorted(comp.get_observing_keys()) == sorted({k for o in inner for k in o.get_observing_keys()}), "composite-keys", "a composite observes exactly what its parts observe")
            plan.append(inner)
            spy = comp
        else:
            plan.append([spy])
        for _ in range(rng.choice([1, 1, 2])):  # adding an observer again changes nothing
            (src.add_observer(spy) if rng.random() < .5 else src.add_observers([spy]))
    for _ in range(rng.randint(10, 30)):
        ks = rng.sample(keys, rng.randint(1, len(keys)))
        msg, want = {}, []
        for k in ks:
            v = rng.choice([rng.random(), rng.randrange(9), torch.randn(()), torch.randn(rng.randint(1, 4)), torch.randn(2, 3), torch.randn(3, requires_grad=True) * 2, [1., 2.], "text", None])
            msg[k] = v
            if v is None:
                ctx.saw("skipped_none")
                continue
            for grp in plan:
                for o in grp:
                    if k in o.get_observing_keys():
                        want.append((o.name, k, v))
        log.clear()
        src.notify_observers(**msg)
        ctx.saw("notifications")
        ctx.saw("delivered", len(want))
        ok = ctx.expect([x[:2] for x in log] == [x[:2] for x in want], "delivery", "values did not reach each observer of their key once and in order", got=[x[:2] for x in log], want=[x[:2] for x in want])
        for (_, k, g), (_, _, v) in zip(log, want) if ok else ():
            if types[k] is torch.Tensor and not isinstance(v, str):
                good = isinstance(g, torch.Tensor) and g.dim() >= 1 and not g.requires_grad and g.shape == (torch.as_tensor(v).shape or (1,)) and np.array_equal(f64(g).reshape(-1), f64(v).reshape(-1))
            else:
                good = g is v
            ctx.expect(good, "delivered-value", "the value delivered is not the one reported (tensors: at least one axis, detached)", got=repr(g)[:100], given=repr(v)[:100])
    try:
        src.notify_observers(unheard_of=1.0)
        ctx.expect(False, "unknown-key", "reporting an undeclared key was accepted")
    except AssertionError:
        ctx.saw("unknown_keys")


# ------------------------------------------------------------------ intervals
class Spool(Aggregator):
    def __init__(self, key):
        super().__init__(key)
        self.chunks = []

    def aggregate(self, values):
        self.chunks.append(list(values))


def intervals(ctx, rng):
    n = rng.choice([1, 2, 3, 5, 7, None, 100])
    ends = rng.random() < .8
    a = Spool("x")
    o = IntervalAggregatingObserver(n, a, observe_epoch_end=ends)
    ctx.expect(set(o.get_observing_keys()) == ({"x", "epoch_end"} if ends else {"x"}), "interval-keys", "observed keys", got=o.get_observing_keys())
    want, cur, k = [], [], 0
    for _ in range(rng.randint(1, 12)):
        for _ in range(rng.choice([0, 0, 1, 2, 6, 13, 20])):
            o.update("x", k)
            cur.append(k)
            k += 1
            ctx.saw("notifications")
            if n and len(cur) == n:
                want.append(cur)
                cur = []
                ctx.saw("interval_flushes")
            ctx.expect(a.chunks == want, "interval", "values were not aggregated exactly after every N since the last flush", interval=n, got=a.chunks[-3:], want=want[-3:])
        if ends and rng.random() < .7:
            o.update("epoch_end", 1)
        else:
            o.flush()
        ctx.saw("epoch_flushes")
        if cur:
            want.append(cur)
            cur = []
        else:
            ctx.saw("empty_flushes")
        ctx.expect(a.chunks == want, "flush", "a flush must aggregate exactly the values since the last one (and nothing when there are none)", interval=n, got=a.chunks[-3:], want=want[-3:])
    ctx.expect([v for c in a.chunks for v in c] == list(range(k)), "conservation", "values were lost, repeated or reordered", total=k)
    try:
        a("y", [1])
        ctx.expect(False, "aggregator-key", "an aggregator accepted another key")
    except AssertionError:
        ctx.saw("refusals")
    v = ValueListObserver("y")
    for i in range(5):
        v.update("y", i)
    ctx.expect(v.values == [0, 1, 2, 3, 4], "value-list", "the list is not the values in order", got=v.values)
    v.reset()
    v.update("y", 7)
    ctx.expect(v.values == [7], "value-list-reset", "values remain after reset", got=v.values)
    ends_seen = []
    e = EpochEndObserver(ends_seen.append, **({} if rng.random() < .5 else {"key": "stop"}))
    e.update(e.get_observing_keys()[0], 4)
    ctx.expect(ends_seen == [4], "epoch-end", "the callback got something else than the epoch", got=ends_seen)


# ------------------------------------------------------------------ aggregators
def chunks(rng, make):
    return [[make(rng.choice([1, 1, 2, 4])) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 5))]


def cat(chunk):
    return np.concatenate([f64(c) for c in chunk])


def board(ctx, rec, want, mech):
    """want: list of ("scalar"|"hist", tag, number or array, step)"""
    got = [c for c in rec.calls if c[0] in ("add_scalar", "add_histogram")]
    names = [(c[0][4:5], c[1][0], c[2].get("global_step")) for c in got]
    if not ctx.expect(names == [(w[0][0], w[1], w[3]) for w in want], mech + ":calls", "the summary calls are not the expected tags in order at the current step", got=names[:6], want=[w[:2] + w[3:] for w in want][:6]):
        return
    for c, w in zip(got, want):
        g = f64(c[1][1] if len(c[1]) > 1 else c[2].get("scalar_value", c[2].get("values")))
        ctx.saw("tb_scalars" if w[0] == "scalar" else "tb_histograms")
        x = np.asarray(w[2], dtype=np.float64)
        ok = g.size == x.size and np.allclose(np.sort(g.reshape(-1)), np.sort(x.reshape(-1)), rtol=2e-5, atol=1e-5)
        ctx.expect(ok, mech + ":numbers", "a summary holds other numbers than the values since the last flush", tag=w[1], got=g.reshape(-1)[:5].tolist(), want=x.reshape(-1)[:5].tolist())


def aggregators(ctx, rng):
    SummaryWriterContext._reset_globals()
    actions = [f"a{i}" for i in range(rng.randint(1, 4))]
    A = len(actions)
    rec = Rec()
    step = [0]

    def feed(a, cs, each=lambda c: None):
        with summary_writer_context(rec):
            for c in cs:
                each(c)
                a(a.key, c)
                ctx.saw("aggregations")
                if rng.random() < .5:
                    SummaryWriterContext.increase_global_step()
                    step[0] += 1

    # mean
    a, cs = agg.MeanAggregator("v"), chunks(rng, lambda n: torch.randn(n, *rng.choice([(), (1,)][:1])))
    feed(a, cs)
    ctx.close(a.values, [cat(c).mean() for c in cs], "mean", rtol=2e-5, atol=1e-6)
    # per action functions
    fns = {"mean": torch.mean, "max": torch.amax, "sum": torch.sum}
    a, cs = agg.FunctionsByActionAggregator("v", actions, fns), chunks(rng, lambda n: torch.randn(n, A))
    feed(a, cs)
    for name, f in (("mean", np.mean), ("max", np.max), ("sum", np.sum)):
        for j, act in enumerate(actions):
            ctx.close(a.values[name][act], [f(cat(c)[:, j]) for c in cs], "by-action", rtol=2e-5, atol=1e-5)
    # action counts
    a, cs = agg.ActionCountAggregator("v", actions), chunks(rng, lambda n: torch.randint(A, rng.choice([(n,), (n, 1)])[:1]))
    feed(a, cs)
    counts = [[int((cat(c) == j).sum()) for j in range(A)] for c in cs]
    for j, act in enumerate(actions):
        ctx.expect(a.values[act] == [c[j] for c in counts], "action-counts", "counts of an action", got=a.values[act], want=[c[j] for c in counts])
        ctx.close(a.get_distributions()[act], [c[j] / sum(c) for c in counts], "action-distribution", rtol=1e-9)
        ctx.close(a.get_cumulative_distributions()[act], sum(c[j] for c in counts) / sum(map(sum, counts)), "cumulative-distribution", rtol=1e-9)
        ctx.saw("distributions")
    # recent values
    size = rng.choice([None, 1, 3, 10])
    a, cs = (agg.RecentValuesAggregator("v") if size is None else agg.RecentValuesAggregator("v", size)), chunks(rng, lambda n: torch.randn(n, 2))
    feed(a, cs)
    every = np.concatenate([cat(c).reshape(-1) for c in cs])
    ctx.close(list(a.values), every[-size:] if size else every, "recent-values", rtol=1e-6, atol=1e-7)
    ctx.saw("recent")
    # tensorboard
    rec.calls.clear()
    a, cs, want = agg.TensorBoardHistogramAndMeanAggregator("v", "log/v"), chunks(rng, lambda n: torch.randn(n, 1) if col else torch.randn(n)), []
    feed(a, cs, lambda c: want.extend([("hist", "log/v", cat(c), step[0]), ("scalar", "log/v/mean", cat(c).mean(), step[0])]))
    board(ctx, rec, want, "histogram")
    rec.calls.clear()
    prefix = rng.choice([None, "pre"])
    a = agg.TensorBoardActionHistogramAndMeanAggregator("v", "cat", "title", actions, log_key_prefix=prefix)
    p = prefix or "cat/title"
    cs, want = chunks(rng, lambda n: torch.randn(n, A)), []
    feed(a, cs, lambda c: want.extend(x for j, act in enumerate(actions) for x in (("hist", f"{p}/{act}", cat(c)[:, j], step[0]), ("scalar", f"{p}/{act}/mean", cat(c)[:, j].mean(), step[0]))))
    board(ctx, rec, want, "action-histogram")
    rec.calls.clear()
    b = agg.TensorBoardActionCountAggregator("v", "tt", actions)
    cs, want = chunks(rng, lambda n: torch.randint(A + 1, (n,))), []
    feed(b, cs, lambda c: want.extend(("scalar", f"actions/tt/{act}", int((cat(c) == j).sum()), step[0]) for j, act in enumerate(actions)))
    board(ctx, rec, want, "action-count")
    SummaryWriterContext.add_custom_scalars(rec)
    charts = [c for c in rec.calls if c[0] == "add_custom_scalars"]
    layout = charts[0][1][0] if charts else None
    ctx.expect(layout == {"cat": {"title": ["Multiline", [f"{p}/{x}/mean" for x in actions]]}, "actions": {"tt": ["Multiline", [f"actions/tt/{x}" for x in actions]]}}, "charts",
               "the registered charts do not name the tags that are logged", got=str(layout))
    for bad in (lambda: a("v", [torch.randn(2, A + 1)]), lambda: agg.TensorBoardHistogramAndMeanAggregator("v", "x")("v", [torch.randn(3, 2)]), lambda: agg.TensorBoardActionCountAggregator("v", "tt", actions)):
        try:
            bad()
            ctx.expect(False, "shape-refused", "values of the wrong shape (or a repeated chart title) were accepted")
        except (ValueError, AssertionError):
            ctx.saw("refusals")
    rec.calls.clear()
    with summary_writer_context(rec):
        s = TensorBoardScalarObserver("k", rng.choice([None, "as"]))
        s.update("k", torch.tensor([2.5]))
    board(ctx, rec, [("scalar", s.logging_key, 2.5, step[0])], "scalar-observer")
    ctx.expect(s.logging_key in ("k", "as"), "scalar-observer:tag", "tag", got=s.logging_key)
    SummaryWriterContext._reset_globals()


col = True


# ------------------------------------------------------------------ reporters
def spec(kind, actions, n):
    """documented content of each reporter: attribute -> (key, summary), and summary calls key -> [(style, tag)], with their interval"""
    mean, recent, byaction, count = "mean", "recent", "byaction", "count"
    base = dict(td_loss=("td_loss", mean), recent_rewards=("logged_rewards", recent), logged_action_q_value=("model_values_on_logged_actions", mean))
    tb = [("td_loss", "hist", "td_loss", n), ("reward_loss", "hist", "reward_loss", n), ("logged_propensities", "hist", "propensities/logged", n), ("logged_rewards", "hist", "reward/logged", n)]
    q = [("q1_loss", "loss/q1_loss"), ("actor_loss", "loss/actor_loss"), ("q1_value", "q_value/q1_value"), ("next_q_value", "q_value/next_q_value"), ("target_q_value", "q_value/target_q_value"),
         ("actor_q1_value", "q_value/actor_q1_value"), ("q2_loss", "loss/q2_loss"), ("q2_value", "q_value/q2_value")]
    if kind in ("dqn", "crr"):
        attrs = dict(td_loss=("td_loss", mean), reward_loss=("reward_loss", mean), model_values=("model_values", byaction), logged_action=("logged_actions", count), model_action=("model_action_idxs", count),
                     recent_rewards=("logged_rewards", recent))
        t = [("logged_actions", "count", "actions/logged", n), ("model_action_idxs", "count", "actions/model", n)] + tb
        if kind == "crr":
            t += [(k, "hist", v, n) for k, v in q]
        t += [("model_propensities", "peraction", "propensities/model", n), ("model_rewards", "peraction", "reward/model", n), ("model_values", "peraction", "value/model", n)]
        return attrs, t, []
    if kind == "parametric":
        return dict(td_loss=("td_loss", mean), reward_loss=("reward_loss", mean), recent_rewards=("logged_rewards", recent), model_values_on_logged_actions=("model_values_on_logged_actions", mean)), tb, []
    if kind == "slateq":
        return base, [x for x in tb if x[0] != "logged_propensities"], []
    if kind == "td3":
        return base, tb + [(k, "hist", v, 1) for k, v in q], []
    if kind == "sac":
        s = [("q1_value", "q1/logged_state_value"), ("q2_value", "q2/logged_state_value"), ("log_prob_a", "log_prob_a"), ("target_state_value", "value_network/target"),
             ("next_state_value", "q_network/next_state_value"), ("target_q_value", "q_network/target_q_value"), ("actor_output_log_prob", "actor/log_prob"), ("min_q_actor_value", "actor/min_q_actor_value"),
             ("actor_loss", "actor/loss"), ("action_batch_mean", "kld/mean"), ("action_batch_var", "kld/var")]
        return base, tb + [(k, "hist", v, 1) for k, v in s], [("entropy_temperature", "entropy_temperature"), ("kld", "kld/kld")]
    return base, tb, []


MAKE = dict(dqn=lambda a, n: DiscreteDQNReporter(a, report_interval=n), crr=lambda a, n: DiscreteCRRReporter(a, report_interval=n), parametric=lambda a, n: ParametricDQNReporter(report_interval=n),
            slateq=lambda a, n: SlateQReporter(report_interval=n), td3=lambda a, n: TD3Reporter(report_interval=n), sac=lambda a, n: SACReporter(report_interval=n), ac=lambda a, n: ActorCriticReporter(report_interval=n))


class Model:
    """replays the raw log: what each key's pending values are and what each summary must hold"""

    def __init__(self, kind, actions, n):
        self.actions = actions
        self.attrs, self.tb, self.direct = spec(kind, actions, n)
        self.n = n
        self.pend = {name: [] for name in self.attrs}
        self.pend_tb = [[] for _ in self.tb]
        self.out = {name: [] for name in self.attrs}
        self.board = collections.defaultdict(list)

    def keys(self):
        return {k for k, _ in self.attrs.values()} | {t[0] for t in self.tb} | {d[0] for d in self.direct}

    def summarise(self, name, style):
        x = np.concatenate(self.pend[name])
        self.pend[name] = []
        if style == "mean":
            self.out[name].append(x.mean())
        elif style == "recent":
            self.out[name].extend(x.reshape(-1).tolist())
        elif style == "byaction":
            with np.errstate(all="ignore"):
                self.out[name].append((x.mean(0), x.std(0, ddof=1) if len(x) > 1 else np.full(x.shape[1], np.nan)))
        else:
            self.out[name].append([int((x == j).sum()) for j in range(len(self.actions))])

    def write(self, j, step):
        _, style, tag, _ = self.tb[j]
        x = np.concatenate(self.pend_tb[j])
        self.pend_tb[j] = []
        if style == "hist":
            self.board[tag] += [("hist", x, step)]
            self.board[tag + "/mean"] += [("scalar", x.mean(), step)]
        elif style == "count":
            for i, a in enumerate(self.actions):
                self.board[f"{tag}/{a}"] += [("scalar", (x == i).sum(), step)]
        else:
            for i, a in enumerate(self.actions):
                self.board[f"{tag}/{a}"] += [("hist", x[:, i], step)]
                self.board[f"{tag}/{a}/mean"] += [("scalar", x[:, i].mean(), step)]

    def log(self, key, v, step):
        v = np.atleast_1d(f64(v))
        for name, (k, style) in self.attrs.items():
            if k == key:
                self.pend[name].append(v)
                if len(self.pend[name]) == self.n:
                    self.summarise(name, style)
        for j, (k, _, _, every) in enumerate(self.tb):
            if k == key:
                self.pend_tb[j].append(v)
                if len(self.pend_tb[j]) == every:
                    self.write(j, step)
        for k, tag in self.direct:
            if k == key:
                self.board[tag].append(("scalar", v, step))

    def flush(self, step):
        for name, (_, style) in self.attrs.items():
            if self.pend[name]:
                self.summarise(name, style)
        for j in range(len(self.tb)):
            if self.pend_tb[j]:
                self.write(j, step)


def compare(ctx, rep, model, rec, mech):
    for name, (key, style) in model.attrs.items():
        a, want = getattr(rep, name), model.out[name]
        if style == "byaction":
            for i, act in enumerate(model.actions):
                ctx.close(a.values["mean"][act], [w[0][i] for w in want], f"{mech}:{name}", rtol=1e-4, atol=1e-5)
                g, w = np.array(a.values["std"][act], dtype=float), np.array([x[1][i] for x in want], dtype=float)
                ctx.expect(g.shape == w.shape and np.allclose(g, w, rtol=1e-3, atol=1e-4, equal_nan=True), f"{mech}:{name}", "standard deviations", got=g.tolist()[:4], want=w.tolist()[:4])
        elif style == "count":
            for i, act in enumerate(model.actions):
                ctx.expect(a.values[act] == [w[i] for w in want], f"{mech}:{name}", "counts of an action in each window", got=a.values[act][-5:], want=[w[i] for w in want][-5:])
        else:
            ctx.close(list(a.values), want, f"{mech}:{name}", rtol=2e-5, atol=1e-5)
    got = collections.defaultdict(list)
    for c in rec.calls:
        if c[0] in ("add_scalar", "add_histogram"):
            got[c[1][0]].append(("scalar" if c[0] == "add_scalar" else "hist", f64(c[1][1]).reshape(-1), c[2].get("global_step")))
    ctx.expect(set(got) == set(model.board), f"{mech}:tags", "tags logged", unexpected=sorted(set(got) - set(model.board))[:5], missing=sorted(set(model.board) - set(got))[:5])
    for tag in set(got) & set(model.board):
        g, w = got[tag], model.board[tag]
        ok = ctx.expect([(x[0], x[2]) for x in g] == [(x[0], x[2]) for x in w], f"{mech}:summaries", "number, kind or step of the summaries of a tag", tag=tag, got=[(x[0], x[2]) for x in g][:6], want=[(x[0], x[2]) for x in w][:6])
        for x, y in zip(g, w) if ok else ():
            ctx.saw("tb_scalars" if x[0] == "scalar" else "tb_histograms")
            v = np.asarray(y[1], dtype=np.float64).reshape(-1)
            ctx.expect(x[1].size == v.size and np.allclose(np.sort(x[1]), np.sort(v), rtol=1e-4, atol=1e-5), f"{mech}:numbers", "a summary holds other numbers than its window", tag=tag, got=x[1][:5].tolist(), want=v[:5].tolist())


def value_for(rng, key, A):
    n = rng.choice([1, 2, 3])
    if key in ("model_values", "model_propensities", "model_rewards"):
        return torch.randn(n, A)
    if key in ("logged_actions", "model_action_idxs"):
        return torch.randint(A, (n, 1))
    if key in ("entropy_temperature", "kld"):
        return rng.choice([rng.random(), torch.rand(()), torch.rand(1)])
    if key.endswith("loss"):
        return rng.choice([torch.rand(()), rng.random(), torch.rand(1, requires_grad=True) * 2, None])
    return torch.randn(n, 1)


def reporters(ctx, rng, kind):
    SummaryWriterContext._reset_globals()
    actions = [f"act{i}" for i in range(rng.randint(2, 4))]
    n = rng.choice([1, 2, 3, 7, 100])
    rec, model = Rec(), Model(kind, actions, n)
    rep = MAKE[kind](actions, n)
    ctx.expect(model.keys() | {"epoch_end", "cpe_details"} == set(rep.get_observing_keys()), f"{kind}:keys", "the keys a reporter accepts", got=sorted(rep.get_observing_keys()), want=sorted(model.keys()))
    keys, step, details, points = sorted(model.keys()), 0, [], 0
    with summary_writer_context(rec):
        for epoch in range(rng.randint(2, 4)):
            for _ in range(rng.choice([0, 1, 4, 9])):
                msg = {k: value_for(rng, k, len(actions)) for k in rng.sample(keys, rng.randint(1, len(keys)))}
                if rng.random() < .1:
                    details.append({"cpe": len(details)})
                    rep.log(cpe_details=details[-1])
                for k, v in msg.items():
                    if v is not None:
                        model.log(k, v, step)
                rep.log(**msg)
                ctx.saw("reporter_logs")
                if rng.random() < .6:
                    SummaryWriterContext.increase_global_step()
                    step += 1
            before = len(model.out["td_loss"])
            rep.flush(epoch)
            model.flush(step)
            ctx.saw("reporter_flushes")
            if kind in ("dqn", "crr"):
                ctx.expect(rep.num_data_points_per_epoch == len(model.out["td_loss"]) - points, f"{kind}:data-points", "aggregated points of the epoch", got=rep.num_data_points_per_epoch, want=len(model.out["td_loss"]) - points)
                points = len(model.out["td_loss"])
            compare(ctx, rep, model, rec, kind)
    ctx.expect(rep.cpe_results.values == details, f"{kind}:details", "evaluation details are not kept as given", got=str(rep.cpe_results.values)[:100])
    for bad in (lambda: rep.log(no_such_value=1.0), lambda: rep.no_such_observer):
        try:
            bad()
            ctx.expect(False, f"{kind}:refusal", "an undeclared key (or attribute) was accepted")
        except (AssertionError, AttributeError):
            ctx.saw("refusals")
    SummaryWriterContext._reset_globals()


def fixed_points(ctx, rng):
    """reporters that insist on epochs of equal length"""
    class R(DataPointsPerEpochMixin, ReporterBase):
        def __init__(self, n):
            super().__init__({}, {"td_loss": IntervalAggregatingObserver(n, agg.MeanAggregator("td_loss"))})

        def generate_training_report(self):
            return None
    n, k = rng.randint(1, 3), rng.randint(1, 5)
    r = R(n)
    for e in range(3):
        for _ in range(n * k):
            r.log(td_loss=1.0)
        r.flush(e)
        ctx.expect(r.num_data_points_per_epoch == k, "fixed-points", "aggregated points per epoch", got=r.num_data_points_per_epoch, want=k)
    for _ in range(n * (k + 1)):
        r.log(td_loss=1.0)
    try:
        r.flush(3)
        ctx.expect(False, "fixed-points-refusal", "an epoch of another length was accepted")
    except AssertionError:
        ctx.saw("refusals")


def trained(ctx, rng, kind):
    """a reporter attached to a real trainer summarises what that trainer logged"""
    SummaryWriterContext._reset_globals()
    z = zoo.build(rng, kind)
    t = z.module
    actions = []
    style = {"c51": "dqn", "qrdqn": "dqn", "dqn": "dqn", "crr": "crr", "parametric": "parametric", "slateq": "slateq", "td3": "td3", "sac": "sac"}[kind]
    n = rng.choice([2, 3, 5])
    if style in ("dqn", "crr"):
        b = z.make_batch()
        actions = [f"act{i}" for i in range(b.action.shape[1])]
    rec, model = Rec(), Model(style, actions, n)
    rep = MAKE[style](actions, n)
    real = rep.log

    def spy(**kw):
        for k, v in kw.items():
            if v is not None:
                model.log(k, torch.as_tensor(v).detach().clone(), SummaryWriterContext._global_step)
                ctx.saw("trainer_logged")
        real(**kw)

    real_flush = rep.flush

    def flush(epoch):
        real_flush(epoch)
        model.flush(SummaryWriterContext._global_step)

    rep.log, rep.flush = spy, flush
    t.set_reporter(rep)
    k = rng.randint(3, 7)
    with summary_writer_context(rec):
        zoo.lightning(epochs=2, log_every_n_steps=rng.choice([1, 2])).fit(t, zoo.dataset([z.make_batch() for _ in range(k)]))
        ctx.expect(SummaryWriterContext._global_step == 2 * k, "global-step", "the summary step is not the number of batches trained", got=SummaryWriterContext._global_step, want=2 * k)
    ctx.saw("trainer_batches", 2 * k)
    compare(ctx, rep, model, rec, "trained-" + kind)
    SummaryWriterContext._reset_globals()


def windows(ctx, rng):
    for _ in range(10):
        ctx.saw("windows")
        vals = {f"k{i}": [rng.gauss(0, 1) for _ in range(rng.choice([1, 5, 10, 11, 99, 101, 250]))] for i in range(2)}
        m = rng.choice([1, 10, 30])
        got = get_mean_of_recent_values(vals, min_window_size=m)
        for k, v in vals.items():
            ctx.close(got[k], np.mean(v[-max(m, math.ceil(.1 * len(v))):]), "recent-mean", rtol=1e-9)
        arr, w = [rng.gauss(0, 1) for _ in range(rng.randint(1, 30))], rng.randint(1, 40)
        for f in (calculate_recent_window_average, LossReporter.calculate_recent_window_average):
            ctx.close(f(arr, w, 1), np.mean(arr[-w:]), "window-average", rtol=1e-9)
            ctx.expect(math.isnan(f([], w, 1)) and all(map(math.isnan, f([], w, 3))) and len(f([], w, 3)) == 3, "window-average-empty", "no values have no average")


def loss_board(ctx, rng):
    SummaryWriterContext._reset_globals()
    rep, rec = LossReporter(None), Rec()
    td = [rng.random() for _ in range(rng.randint(0, 130))]
    for v in td:
        rep.report(td_loss=v)
        rep.flush()
    e = rng.randrange(50)
    with summary_writer_context(rec):
        rep.log_to_tensorboard(e)
    ctx.saw("loss_board")
    want = [("scalar", "Training/td_loss", np.mean(td[-100:]) if td else 0., e), ("scalar", "Training/reward_loss", 0., e), ("scalar", "Training/imitator_loss", 0., e)]
    got = []
    for c in rec.calls:
        if c[0] == "add_scalar":
            got.append((c[1][0], float(c[1][1]), c[1][2] if len(c[1]) > 2 else c[2].get("global_step")))
    ctx.expect([(g[0], g[2]) for g in got] == [(w[1], w[3]) for w in want], "loss-board", "the epoch's losses were not written once each at the epoch given", got=got, want=want)
    for g, w in zip(got, want):
        ctx.close(g[1], w[2], "loss-board-value", rtol=1e-5, atol=1e-7)


def run(ctx):
    for i in range(ctx.n(60, 600)):
        with ctx.case("delivery", dict(i=i)):
            ctx.seed_all(f"d{i}")
            delivery(ctx, ctx.sub(f"d{i}"))
        with ctx.case("intervals", dict(i=i)):
            intervals(ctx, ctx.sub(f"i{i}"))
    for i in range(ctx.n(30, 300)):
        with ctx.case("aggregators", dict(i=i)):
            ctx.seed_all(f"a{i}")
            global col
            col = i % 2 == 0
            aggregators(ctx, ctx.sub(f"a{i}"))
    for i in range(ctx.n(12, 100)):
        for kind in MAKE:
            with ctx.case("reporter", dict(i=i, kind=kind)):
                ctx.seed_all(f"r{i}{kind}")
                reporters(ctx, ctx.sub(f"r{i}{kind}"), kind)
        with ctx.case("fixed-points", dict(i=i)):
            fixed_points(ctx, ctx.sub(f"f{i}"))
        with ctx.case("windows", dict(i=i)):
            windows(ctx, ctx.sub(f"w{i}"))
        with ctx.case("loss-board", dict(i=i)):
            loss_board(ctx, ctx.sub(f"l{i}"))
    for i in range(ctx.n(3, 25)):
        for kind in ("dqn", "c51", "qrdqn", "parametric", "slateq", "td3", "crr", "sac"):
            with ctx.case("trained", dict(i=i, kind=kind)):
                ctx.seed_all(f"t{i}{kind}")
                trained(ctx, ctx.sub(f"t{i}{kind}"), kind)
