"""C04: summary logging keeps its nesting, counts and step discipline."""
import vf.quiet  # noqa
import os
import tempfile

import numpy as np
import pytorch_lightning as pl
import torch
import reagent.training  # noqa
from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from torch.utils.tensorboard import SummaryWriter

from vf import zoo
from vf.writers import Rec

RULE = (
    "Random programs of nested summary-writer contexts (real, absent and refused writers), log calls of every kind, step increments and exceptions "
    "raised and caught at random levels run against recording writers, some of which fail by themselves with ignored and unignored exceptions. A stack "
    "model predicts which writer gets which call with which step, what each call returns or raises, and that every context restores its surroundings. "
    "The same programs also write real event files, which are read back."
)
REQUIRED = {"programs": 60, "contexts": 500, "calls": 2000, "silent_calls": 300, "steps": 400, "own_step": 150, "raised_through": 80, "ignored_errors": 80, "surfaced_errors": 80, "histogram_swallowed": 12,
            "none_contexts": 80, "refused_writers": 20, "file_events": 200, "charts": 50, "chart_refusals": 40, "batches": 100, "writer_lookups": 40}


class Planned(Exception):
    """raised by the program itself"""


class Boom(RuntimeError):
    pass


class Fizz(LookupError):
    pass


ERR = [Boom, Fizz, KeyError, ValueError, OSError]


class Machine:
    """the program, and the stack model of what it must do"""

    def __init__(self, ctx, rng, mk):
        self.ctx, self.rng, self.mk = ctx, rng, mk
        self.stack, self.want, self.writers, self.step, self.n, self.budget = [], {}, [], 0, 0, rng.randint(15, 90)

    def writer(self):
        rng = self.rng
        if self.writers and rng.random() < .3:
            return rng.choice(self.writers)  # the same writer can be nested in itself
        w = self.mk(len(self.writers))
        w.plan, w.told = None, []
        if isinstance(w, Rec) and rng.random() < .6:
            w.fail = lambda name, w=w: w.plan
            if rng.random() < .6:
                w.exceptions_to_ignore = rng.choice([Boom, (Boom, Fizz), (KeyError, OSError), LookupError, ()])
                if rng.random() < .6:
                    w.exception_logging_func = w.told.append
        self.writers.append(w)
        self.want[w] = []
        return w

    def log(self):
        ctx, rng = self.ctx, self.rng
        self.n += 1
        tag = f"t{self.n}" if rng.random() < .7 else rng.choice(["shared", "a/b"])
        kind = rng.choice(["add_scalar", "add_scalar", "add_histogram", "add_scalars", "add_text"])
        val = {"add_scalar": float(np.float32(rng.gauss(0, 1))), "add_histogram": torch.randn(rng.randint(1, 6)), "add_scalars": {"x": 1.0, "y": rng.random()}, "add_text": "words"}[kind]
        kw, step = {}, self.step
        if rng.random() < .3:
            step = kw["global_step"] = rng.choice([0, 7, self.step + 100])
            ctx.saw("own_step")
        top = self.stack[-1] if self.stack else None
        err = None
        if isinstance(top, Rec) and top.fail is not None and rng.random() < .4:
            err = rng.choice(ERR)("no")
            top.plan = err
        ignored = err is not None and isinstance(err, getattr(top, "exceptions_to_ignore", ()))
        swallowed = kind == "add_histogram" and isinstance(err, ValueError)
        told = len(top.told) if top is not None else 0
        caught = None
        try:
            ret = getattr(SummaryWriterContext, kind)(tag, val, **kw)
        except tuple(ERR) as e:
            caught = e
        if top is not None:
            top.plan = None
            self.want[top].append((kind, tag, val, step))
        ctx.saw("calls")
        if err is None:
            ctx.expect(caught is None, "raise", "logging raised although the writer did not", err=repr(caught))
            if top is None:
                ctx.saw("silent_calls")
                ctx.expect(ret is None, "silent", "logging without a writer is not silent", got=repr(ret))
        elif ignored or swallowed:
            ctx.saw("ignored_errors" if ignored else "histogram_swallowed")
            ctx.expect(caught is None, "ignored", "an exception the writer declares ignored surfaced", err=repr(err), ignored=str(getattr(top, "exceptions_to_ignore", None)))
        else:
            ctx.saw("surfaced_errors")
            ctx.expect(caught is err, "surfaced", "a logging error not declared ignored was swallowed", err=repr(err), ignored=str(getattr(top, "exceptions_to_ignore", None)))
        if top is not None and hasattr(top, "exception_logging_func"):
            ctx.expect(top.told[told:] == ([err] if ignored else []), "told", "the writer's own error handler must be given exactly the ignored exception", got=top.told[told:], err=repr(err))
        self.look("after a call")

    def look(self, where):
        """the innermost writer as the context shows it"""
        ctx = self.ctx
        ctx.expect(len(SummaryWriterContext._writer_stacks) == len(self.stack) and all(a is b for a, b in zip(SummaryWriterContext._writer_stacks, self.stack)), "stack", f"active writers {where}",
                   got=len(SummaryWriterContext._writer_stacks), want=len(self.stack)) if hasattr(SummaryWriterContext, "_writer_stacks") else None

    def block(self, depth):
        rng, ctx = self.rng, self.ctx
        for _ in range(rng.randint(1, 7)):
            if self.budget <= 0:
                return
            self.budget -= 1
            r = rng.random()
            if r < .55:
                self.log()
            elif r < .64:
                SummaryWriterContext.increase_global_step()
                self.step += 1
                ctx.saw("steps")
            elif r < .68:
                if depth:
                    ctx.saw("raised_through")
                    raise Planned()
            elif r < .74:
                bad = rng.choice([object(), "writer", 3, SummaryWriter])
                try:
                    with summary_writer_context(bad):
                        ctx.expect(False, "refused", "something that is no writer was accepted", what=repr(bad)[:50])
                except AssertionError:
                    ctx.saw("refused_writers")
                self.look("after a refused writer")
            elif depth < 7:
                w = None if rng.random() < .2 else self.writer()
                saved = list(self.stack)
                outer = rng.random() < .5
                try:
                    with summary_writer_context(w):
                        ctx.saw("contexts" if w is not None else "none_contexts")
                        if w is not None:
                            self.stack.append(w)
                        self.look("inside a context")
                        self.block(depth + 1)
                except Planned:
                    self.stack = saved
                    self.look("after an exception left the context")
                    if outer and depth:
                        raise
                self.stack = saved
                self.look("after a context")


def programs(ctx, rng):
    SummaryWriterContext._reset_globals()
    m = Machine(ctx, rng, lambda i: Rec())
    while m.budget > 0:
        m.block(0)
    ctx.saw("programs")
    same(ctx, m)


def same(ctx, m):
    for w in m.writers:
        got = [(c[0], c[1][0], c[1][1], c[2].get("global_step")) for c in w.calls]
        want = m.want[w]
        ctx.expect([(g[0], g[1], g[3]) for g in got] == [(g[0], g[1], g[3]) for g in want], "calls", "a writer did not get exactly its calls, in order, with the step of the moment",
                   got=[(g[0], g[1], g[3]) for g in got][:8], want=[(g[0], g[1], g[3]) for g in want][:8])
        ctx.expect(len(got) == len(want) and all((torch.equal(g[2], w_[2]) if torch.is_tensor(w_[2]) else g[2] == w_[2]) for g, w_ in zip(got, want)), "values", "a value reached the writer changed")


def files(ctx, rng):
    """the same programs with real writers; what the event files say"""
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator

    SummaryWriterContext._reset_globals()
    root = tempfile.mkdtemp(dir=".")
    m = Machine(ctx, rng, lambda i: SummaryWriter(os.path.join(root, str(i))))
    while m.budget > 0:
        m.block(0)
    ctx.saw("programs")
    for i, w in enumerate(m.writers):
        w.flush()
        w.close()
        acc = EventAccumulator(os.path.join(root, str(i)), size_guidance=dict(scalars=0, histograms=0, tensors=0))
        acc.Reload()
        want = {}
        for k, tag, v, step in m.want[w]:
            if k == "add_scalar":
                want.setdefault(tag, []).append((step, v))
        got = {t: [(e.step, e.value) for e in acc.Scalars(t)] for t in acc.Tags()["scalars"]}
        ctx.expect({t: sorted(v) for t, v in got.items()} == {t: sorted(v) for t, v in want.items()}, "files", "the event file of a writer does not hold exactly its scalars and steps", got=str(got)[:300], want=str(want)[:300])
        hist = {}
        for k, tag, v, step in m.want[w]:
            if k == "add_histogram":
                hist.setdefault(tag, []).append((step, len(v), round(float(v.double().sum()), 3)))
        gh = {t: [(e.step, int(e.histogram_value.num), round(e.histogram_value.sum, 3)) for e in acc.Histograms(t)] for t in acc.Tags()["histograms"]}
        ctx.expect({t: sorted(x[:2] for x in v) for t, v in gh.items()} == {t: sorted(x[:2] for x in v) for t, v in hist.items()}, "file-histograms", "histograms, their sizes or steps", got=str(gh)[:300], want=str(hist)[:300])
        ctx.saw("file_events", sum(map(len, got.values())) + sum(map(len, gh.values())))


def charts(ctx, rng):
    SummaryWriterContext._reset_globals()
    want, refused = {}, 0
    for _ in range(rng.randint(1, 12)):
        cat, title, tags = rng.choice(["a", "b", "c"]), rng.choice(["x", "y", "z"]), [f"t{rng.randrange(99)}" for _ in range(rng.randint(1, 4))]
        try:
            if rng.random() < .8:
                SummaryWriterContext.add_custom_scalars_multilinechart(tags, category=cat, title=title)
                ctx.expect(title not in want.get(cat, {}), "chart-twice", "a chart title was accepted twice in a category", cat=cat, title=title)
                want.setdefault(cat, {})[title] = ["Multiline", tags]
                ctx.saw("charts")
            else:
                SummaryWriterContext.add_custom_scalars_multilinechart(tags, **rng.choice([{}, dict(category=cat), dict(title=title), dict(category="", title=title)]))
                ctx.expect(False, "chart-unnamed", "a chart without category or title was accepted")
        except AssertionError:
            ctx.saw("chart_refusals")
    r = Rec()
    SummaryWriterContext.add_custom_scalars(r)
    got = [c for c in r.calls if c[0] == "add_custom_scalars"]
    clean = {c: t for c, t in (got[0][1][0] if len(got) == 1 else {}).items() if t}
    ctx.expect(len(got) == 1 and clean == want, "charts", "the layout handed to the writer is not the registered charts", got=str(got)[:300], want=str(want)[:300])


class Tiny(ReAgentLightningModule):
    def __init__(self, k, log):
        super().__init__()
        self.k, self.log_, self.w = k, log, torch.nn.ParameterList([torch.nn.Parameter(torch.zeros(1)) for _ in range(k)])

    def configure_optimizers(self):
        return [dict(optimizer=torch.optim.SGD([p], lr=.1)) for p in self.w]

    def train_step_gen(self, training_batch, batch_idx: int):
        for i in range(self.k):
            SummaryWriterContext.add_scalar("loss", float(training_batch.sum()), )
            self.log_.append((batch_idx, i))
            yield (self.w[i] * training_batch.sum()).sum()


def lightning_steps(ctx, rng):
    """while training, the step counts batches; the module finds the TensorBoard writer of whatever logger is set"""
    SummaryWriterContext._reset_globals()
    k, n, epochs, log, rec = rng.randint(1, 4), rng.randint(1, 8), rng.randint(1, 3), [], Rec()
    t = Tiny(k, log)
    with summary_writer_context(rec):
        zoo.lightning(epochs=epochs).fit(t, zoo.dataset([torch.randn(3) for _ in range(n)]))
    ctx.saw("batches", n * epochs)
    got = [c[2].get("global_step") for c in rec.calls]
    ctx.expect(got == [s for s in range(n * epochs) for _ in range(k)], "batch-step", "the step of values logged during training is not the number of batches finished", got=got[:20], per_batch=k)
    ctx.expect(log == [(b, i) for _ in range(epochs) for b in range(n) for i in range(k)], "batch-order", "a training step was not run once per optimizer for each batch", got=log[:20])
    root = tempfile.mkdtemp(dir=".")
    tb = [pl.loggers.TensorBoardLogger(root, name=str(i)) for i in range(2)]
    csv = pl.loggers.CSVLogger(root)
    for _ in range(rng.randint(2, 6)):
        which = rng.choice(["none", "tb0", "tb1", "csv", "many", "csvs"])
        t.logger = dict(none=None, tb0=tb[0], tb1=tb[1], csv=csv, many=pl.loggers.LoggerCollection([csv, tb[1], tb[0]]), csvs=pl.loggers.LoggerCollection([csv]))[which]
        want = dict(none=None, tb0=tb[0].experiment, tb1=tb[1].experiment, many=tb[1].experiment).get(which)
        for _ in range(2):
            ctx.saw("writer_lookups")
            ctx.expect(t.summary_writer is want, "writer-lookup", "the module's summary writer is not that of the logger in use", logger=which, got=repr(t.summary_writer))
    for x in tb:
        x.close()


def run(ctx):
    for i in range(ctx.n(220, 1500)):
        with ctx.case("program", dict(i=i)):
            ctx.seed_all(f"p{i}")
            programs(ctx, ctx.sub(f"p{i}"))
        with ctx.case("charts", dict(i=i)):
            charts(ctx, ctx.sub(f"c{i}"))
    for i in range(ctx.n(40, 200)):
        with ctx.case("files", dict(i=i)):
            ctx.seed_all(f"f{i}")
            files(ctx, ctx.sub(f"f{i}"))
        with ctx.case("training", dict(i=i)):
            ctx.seed_all(f"t{i}")
            lightning_steps(ctx, ctx.sub(f"t{i}"))
