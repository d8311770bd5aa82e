"""W02: the training workflow trains on exactly the queried rows, exports what it trained and resumes where it stopped."""
import vf.quiet  # noqa
import vf.minispark as ms
import contextlib
import copy
import dataclasses
import io
import math
import os
import types
import zlib

import torch
import reagent.training  # noqa  (import order)
import reagent.types as rlt
from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider  # noqa
from reagent.parameters import NormalizationData
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.publishers.union import ModelPublisher__Union
from reagent.tensorboardX import SummaryWriterContext
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.validators.union import ModelValidator__Union
from reagent.workflow import training
from reagent.workflow.data import manual_data_module
from reagent.workflow.env import get_workflow_id
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.core.result_types import NoPublishingResults, NoValidationResults
from reagent.workflow.types import PublishingResult__Union, ValidationResult__Union, ReaderOptions, RewardOptions, RLTrainingOutput, TableSpec

from vf.features import reference

RULE = (
    "Whole training runs (discrete DQN, C51, QR-DQN, CRR, SAC, TD3) over random timeline tables held by the stand-in data frame engine: random "
    "features, missing values, sample ranges, reward expressions, multi-step rows, minibatch sizes, epochs and entry points (identify and train, "
    "prepared data, saved preparation, given normalisation). A hook on the training step logs every batch each optimizer is given: per epoch each "
    "row of the train range must appear exactly once, in batches of the asked size, holding the row's own normalised values; evaluation rows must be "
    "read exactly once and never trained on. The parameters at the end of the last epoch must be those of the finished trainer and of every exported "
    "file; validator and publisher must each be called once, in order, with the run's own output. A run saved and warm started must begin with the "
    "saved parameters, train the asked number of further epochs, and end where an uninterrupted run of the same length ends."
)
REQUIRED = {"runs": 14, "train_batches": 120, "trained_rows": 2000, "row_values": 1500, "eval_rows": 60, "exported": 16, "validated": 4, "published": 4, "warm_starts": 4, "continued_equal": 2, "ranges": 200, "refused": 60, "given_normalization": 2, "saved_preparation": 2}

MAX = 2 ** 32 - 1
EVENTS = []


@contextlib.contextmanager
def hooked():
    """log what every optimizer of the running trainer is given, and the parameters as each epoch ends"""
    step, end = ReAgentLightningModule.training_step, ReAgentLightningModule.training_epoch_end

    def training_step(self, batch, batch_idx, optimizer_idx=0):
        if not EVENTS:
            EVENTS.append(("start", {k: v.clone() for k, v in self.state_dict().items()}))
        EVENTS.append(("step", batch_idx, optimizer_idx, keys_of(batch), batch))
        return step(self, batch, batch_idx, optimizer_idx)

    def training_epoch_end(self, out):
        EVENTS.append(("epoch", {k: v.clone() for k, v in self.state_dict().items()}))
        return end(self, out)

    ReAgentLightningModule.training_step, ReAgentLightningModule.training_epoch_end = training_step, training_epoch_end
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            yield
    finally:
        ReAgentLightningModule.training_step, ReAgentLightningModule.training_epoch_end = step, end


def keys_of(batch):
    return list(zip(batch.extras.mdp_id.flatten().tolist(), batch.extras.sequence_number.flatten().tolist()))


DISCRETE = ("DiscreteDQN", "DiscreteC51DQN", "DiscreteQRDQN", "DiscreteCRR")
KINDS = DISCRETE + ("SAC", "TD3")


def f32(x):
    return float(torch.tensor(x, dtype=torch.float32))


class Job:
    def __init__(self, rng, kind, mixed=False):
        self.kind, self.rng = kind, rng
        self.discrete = kind in DISCRETE
        n = rng.randint(2, 4)
        self.feats = rng.sample(range(0, 60), n)
        self.binary = set()
        if mixed:  # a two-valued feature among continuous ones, in the order the table happens to give
            self.binary = {rng.choice(self.feats)}
        self.acts = rng.choice([["L", "R"], ["up", "down", "no op"]]) if self.discrete else rng.sample(range(20), rng.randint(1, 3))
        self.multi = rng.choice([None, None, 1, 3]) if kind in DISCRETE else None
        self.gamma = rng.choice([0.9, 0.5])
        self.cpe = kind in ("DiscreteDQN", "DiscreteQRDQN", "DiscreteCRR") and rng.random() < 0.5
        self.expr = None if self.multi or rng.random() < 0.5 else rng.choice([("reward * 2 - 1", lambda r, m: r * 2 - 1), ("metrics['m1'] + 0.5 * reward", lambda r, m: m["m1"] + 0.5 * r)])
        self.mb = rng.choice([5, 8, 16, 33])
        self.epochs = rng.randint(1, 3)
        self.rows = self.make_rows()
        if self.cpe:
            self.sample = rng.choice([(60.0, 40.0), (50.0, 25.0), (80.0, 20.0)])
        else:
            self.sample = (rng.choice([None, 70.0, 100.0]), rng.choice([None, 30.0]))
        self.spec = TableSpec("tbl", table_sample=self.sample[0], eval_table_sample=self.sample[1])
        self.cfg = self.config()

    def make_rows(self):
        rng, out = self.rng, []
        centre = {f: rng.uniform(-20, 20) for f in self.feats}
        val = lambda f: float(rng.random() < 0.5) if f in self.binary else f32(rng.gauss(centre[f], 3))
        st = lambda: {f: val(f) for f in self.feats if rng.random() < 0.9}
        act = (lambda: rng.choice(self.acts)) if self.discrete else (lambda: {a: f32(rng.uniform(-3, 5)) for a in self.acts})
        end = "" if self.discrete else {}
        for e in range(rng.randint(30, 45)):
            mdp, n = f"u{rng.randrange(10 ** 6)}-{e}", rng.randint(1, 5)
            states, acts = [st() for _ in range(n + 1)], [act() for _ in range(n)] + [end]
            rew = [f32(rng.uniform(-5, 5)) for _ in range(n)]
            met = [{"m1": f32(rng.uniform(-2, 2)), "m2": f32(rng.random())} for _ in range(n)]
            for t in range(n):
                k = min(self.multi or 1, n - t)
                pick = (lambda xs, off: [xs[t + off + i] for i in range(k)]) if self.multi else (lambda xs, off: xs[t + off])
                row = dict(mdp_id=mdp, sequence_number=t, sequence_number_ordinal=t + 1, state_features=states[t], action=acts[t], action_probability=f32(rng.uniform(0.2, 0.9)), reward=pick(rew, 0), next_state_features=pick(states, 1), next_action=pick(acts, 1), time_diff=pick([1] * n, 0), metrics=pick(met, 0))
                if self.discrete:
                    ok = lambda a: list(self.acts) if a else [""]
                    row.update(possible_actions=ok(acts[t]), possible_next_actions=pick([ok(a) for a in acts], 1))
                out.append(row)
        return out

    def config(self):
        rng = self.rng
        pre = dict(num_samples=min(sum(f in r["state_features"] for r in self.rows) for f in self.feats), skip_box_cox=True)
        layers = dict(sizes=[6], activations=["tanh"])
        rl = dict(gamma=self.gamma, target_update_rate=0.2)
        opt = {rng.choice(["Adam", "SGD"]): dict(lr=0.02)}
        tp = dict(rl=rl)
        if self.discrete:
            rl.update(multi_steps=self.multi)
            tp.update(actions=list(self.acts), minibatch_size=8)
            cfg = dict(state_feature_config_provider=dict(raw=dict(float_feature_infos=[dict(name=str(f), feature_id=f) for f in self.feats])), preprocessing_options=pre, eval_parameters=dict(calc_cpe_in_training=self.cpe))
            if self.kind == "DiscreteCRR":
                tp.update(q_network_optimizer=opt, actor_network_optimizer=opt)
                cfg.update(actor_net_builder={"FullyConnected": layers}, critic_net_builder={"FullyConnected": layers}, cpe_net_builder={"FullyConnected": layers})
            else:
                tp.update(optimizer=opt)
                b = {"DiscreteDQN": "FullyConnected", "DiscreteC51DQN": "Categorical", "DiscreteQRDQN": "Quantile"}[self.kind]
                cfg.update(net_builder={b: layers})
                if self.kind != "DiscreteC51DQN":
                    cfg.update(cpe_net_builder={"FullyConnected": layers})
                if self.kind != "DiscreteDQN":
                    tp.update(num_atoms=5)
                if self.kind == "DiscreteC51DQN":
                    tp.update(qmin=-5.0, qmax=5.0)
        else:
            tp.update(q_network_optimizer=opt, actor_network_optimizer=opt)
            cfg = dict(state_float_features=[(f, str(f)) for f in self.feats], action_float_features=[(a, str(a)) for a in self.acts], state_preprocessing_options=pre, action_preprocessing_options=pre, eval_parameters=dict(calc_cpe_in_training=False), critic_net_builder={"FullyConnected": layers})
            cfg["actor_net_builder"] = {"GaussianFullyConnected" if self.kind == "SAC" else "FullyConnected": layers}
            if self.kind == "SAC":
                cfg["value_net_builder"] = {"FullyConnected": layers}
        cfg["trainer_param"] = tp
        return cfg

    def manager(self):
        return ModelManager__Union(**{self.kind: copy.deepcopy(self.cfg)})

    def between(self, lo, hi):
        out = {}
        for r in self.rows:
            h = zlib.crc32(r["mdp_id"].encode())
            if h >= lo / 100 * MAX and (h < hi / 100 * MAX or hi == 100.0):
                out[(h, r["sequence_number_ordinal"])] = r
        return out

    @property
    def train(self):
        return self.between(0.0, 100.0 if self.sample[0] is None else self.sample[0])

    @property
    def evaluation(self):
        return self.between(100.0 - self.sample[1], 100.0) if self.cpe else {}

    def reward_options(self):
        return RewardOptions(custom_reward_expression=self.expr[0] if self.expr else None)


def columns(norm, m):
    """the row's features, each normalised by its own parameters, in the order networks expect; with tolerances"""
    out = []
    for f in Preprocessor(norm, False).sorted_features:
        v, tol = reference(norm[f], m.get(f, 0.0), m.get(f) is not None)
        out += [(x, tol) for x in v]
    return out


def misplaced(norm, m, ids):
    """what results when values travel in feature id order but are normalised in type order"""
    out = []
    for f, g in zip(Preprocessor(norm, False).sorted_features, ids):
        v, tol = reference(norm[f], m.get(g, 0.0), m.get(g) is not None)
        out += [(x, tol) for x in v]
    return out


def fits(vec, want):
    return len(vec) == len(want) and all(abs(a - w) <= tol * 3 + 1e-4 for a, (w, tol) in zip(vec, want))


def check_rows(ctx, job, batch, rows, norm, action_norm, mixed):
    last = (lambda v: v[-1]) if job.multi else (lambda v: v)
    ids = sorted(job.feats)
    for i, key in enumerate(keys_of(batch)):
        r = rows.get(key)
        if r is None:
            continue  # reported as a foreign row
        ctx.saw("row_values")
        for name, m, got in (("state", r["state_features"], batch.state.float_features[i]), ("next-state", last(r["next_state_features"]), batch.next_state.float_features[i])):
            got = got.tolist()
            if fits(got, columns(norm, m)):
                continue
            if mixed and fits(got, misplaced(norm, m, ids)):
                ctx.expect(False, "mixed-feature-types-normalised-in-id-order", f"features {[(f, norm[f].feature_type) for f in ids]}: {m} became {got}, want {[w for w, _ in columns(norm, m)]}")
                return
            ctx.expect(False, name + "-values", f"{m}: {got} want {columns(norm, m)}")
        if job.multi:
            rew = sum(job.gamma ** k * x for k, x in enumerate(r["reward"]))
            steps = len(r["reward"])
        else:
            rew, steps = (job.expr[1](r["reward"], r["metrics"]) if job.expr else r["reward"]), 1
        ctx.expect(math.isclose(float(batch.reward[i]), rew, rel_tol=1e-4, abs_tol=1e-4), "reward", f"{float(batch.reward[i])} want {rew}")
        ctx.expect(int(batch.step[i]) == steps, "step", f"{int(batch.step[i])} want {steps}")
        na = last(r["next_action"])
        ctx.expect(float(batch.not_terminal[i]) == float(bool(na)), "not-terminal", f"{float(batch.not_terminal[i])} next action {na!r}")
        ctx.expect(math.isclose(float(batch.extras.action_probability[i]), r["action_probability"], rel_tol=1e-5), "action-probability", "")
        if job.discrete:
            for name, a, got in (("action", r["action"], batch.action[i]), ("next-action", na, batch.next_action[i])):
                want = [int(x == a) for x in job.acts]
                ctx.expect(got.tolist() == want, name, f"{got.tolist()} want {want}")
        else:
            ctx.expect(fits(batch.action.float_features[i].tolist(), columns(action_norm, r["action"])), "action", f"{r['action']}: {batch.action.float_features[i].tolist()} want {columns(action_norm, r['action'])}")
            if na:
                ctx.expect(fits(batch.next_action.float_features[i].tolist(), columns(action_norm, na)), "next-action", "")


def chunks(n, size):
    return [size] * (n // size) + ([n % size] if n % size else [])


def check_epochs(ctx, job, epochs, m, rows, given=None):
    """what the trainer was given, epoch by epoch"""
    split, cur = [], []
    for ev in EVENTS:
        if ev[0] == "step":
            cur.append(ev)
        elif ev[0] == "epoch":
            split.append(cur)
            cur = []
    ctx.require(not cur and len(split) == epochs, "epochs", f"{len(split)} epochs and {len(cur)} steps after them, want {epochs}")
    opts = len(m.trainer.configure_optimizers())
    sizes = chunks(len(rows), job.mb)
    norm = m.state_normalization_data.dense_normalization_parameters
    anorm = None if job.discrete else m.action_normalization_data.dense_normalization_parameters
    for e, steps in enumerate(split):
        for o in range(opts):
            mine = [s for s in steps if s[2] == o]
            ctx.expect([s[1] for s in mine] == list(range(len(sizes))), "batch-sequence", f"optimizer {o}: {[s[1] for s in mine]} want {len(sizes)} batches")
            ctx.expect(sorted(len(s[3]) for s in mine) == sorted(sizes), "minibatch-size", f"{[len(s[3]) for s in mine]} want {sizes}")
            seen = [k for s in mine for k in s[3]]
            ctx.expect(len(seen) == len(set(seen)), "row-trained-twice", f"epoch {e}: {len(seen)} rows, {len(set(seen))} different")
            ctx.expect(not set(seen) - set(rows), "foreign-row-trained", f"{list(set(seen) - set(rows))[:3]}")
            ctx.expect(not set(rows) - set(seen), "row-not-trained", f"{len(set(rows) - set(seen))} of {len(rows)}")
            ctx.saw("train_batches", len(mine))
            ctx.saw("trained_rows", len(seen))
        if e in (0, epochs - 1):
            for s in steps:
                if s[2] == 0:
                    check_rows(ctx, job, s[4], rows, norm, anorm, bool(job.binary))


def state_equal(ctx, mech, got, want, rtol=0.0, atol=0.0):
    for k in want:
        if k in ("_next_stopping_epoch", "_cleanly_stopped") or k not in got:
            continue
        if rtol or atol:
            ctx.close(got[k].float(), want[k].float(), mech, rtol=rtol, atol=atol)
        else:
            ctx.expect(torch.equal(got[k], want[k]), mech, f"{k}")


class Spy:
    """validator and publisher that record what they were given"""

    def __init__(self, log, fail=False):
        self.log, self.fail = log, fail
        self.value = self
        self.verdict = ValidationResult__Union(no_validation_results=NoValidationResults(should_publish=log is not None))
        self.published = PublishingResult__Union(no_publishing_results=NoPublishingResults(success=True))

    def validate(self, out):
        self.log.append(("validate", copy.copy(out)))
        if self.fail:
            raise ValueError("does not validate")
        return self.verdict

    def publish(self, manager, out, ids, child, period):
        self.log.append(("publish", manager, copy.copy(out), ids, child, period))
        return self.published


def check_run(ctx, job, m, out, epochs, rows):
    check_epochs(ctx, job, epochs, m, rows)
    readers = ms.READERS
    ctx.expect(all(r.stopped for r in readers), "reader-left-open", f"{[r.stopped for r in readers]}")
    ev = [k for r, b in ms.LOADED if {(x["mdp_id"], x["sequence_number"]) for x in r.df.rows} != set(rows) for k in keys_of(b)]
    want = job.evaluation
    ctx.expect(sorted(ev) == sorted(want), "evaluation-rows", f"{len(ev)} rows read ({len(set(ev))} different), want {len(want)}")
    ctx.saw("eval_rows", len(ev))
    ctx.expect(not set(want) & set(rows), "evaluation-rows-in-training", "")
    final = [e[1] for e in EVENTS if e[0] == "epoch"][-1]
    state_equal(ctx, "finished-trainer-is-not-the-last-epoch", m.trainer.state_dict(), final)
    ctx.expect(any(not torch.equal(final[k], v) for k, v in EVENTS[0][1].items() if v.is_floating_point()), "nothing-learned", "")
    ctx.require(isinstance(out, RLTrainingOutput), "output-type", f"{type(out)}")
    ctx.expect(sorted(out.output_paths) == sorted(m.serving_module_names()), "output-names", f"{sorted(out.output_paths)}")
    ctx.expect(len(set(out.output_paths.values())) == len(out.output_paths), "output-files-shared", f"{out.output_paths}")
    ctx.expect(out.training_report is not None and out.training_report.value is not None, "training-report-missing", "")
    fresh = m.build_serving_modules()
    width = len(m.state_normalization_data.dense_normalization_parameters)
    raw = (torch.randn(3, width) * 5, torch.ones(3, width))
    for name, path in out.output_paths.items():
        ctx.require(os.path.exists(path), "output-missing", path)
        ctx.saw("exported")
        answers = []
        for mod in (torch.jit.load(path), fresh[name]):
            arg = raw if m.create_policy(serving=True).__class__.__name__ == "ActorPredictorPolicy" and name == "default_model" else rlt.ServingFeatureData(raw, {}, {})
            torch.manual_seed(4)
            with torch.no_grad():
                answers.append([x for x in mod(arg) if isinstance(x, torch.Tensor)] if not isinstance(mod(arg), torch.Tensor) else [mod(arg)])
        for a, b in zip(*answers):
            if job.kind == "SAC" and len(answers[0]) > 1 and a is not answers[0][0]:
                continue
            ctx.close(a, b, "exported-model-differs", rtol=1e-4, atol=1e-5)
    m.trainer.train()


def begin(seed):
    SummaryWriterContext._reset_globals()
    EVENTS.clear()
    ms.READERS.clear()
    ms.LOADED.clear()
    torch.manual_seed(seed)


def shifted(norm):
    """recognisably other normalisation of the same features"""
    out = dict(norm)
    out["state"] = NormalizationData(dense_normalization_parameters={f: dataclasses.replace(p, mean=None if p.mean is None else p.mean + 1.5) for f, p in norm["state"].dense_normalization_parameters.items()})
    return out


def launch(ctx, job, rng, entry, m, seed, epochs, **kw):
    """start a run through one of the entry points"""
    begin(seed)
    ms.RNG.seed(len(job.rows))
    opts = dict(use_gpu=False, reward_options=job.reward_options(), reader_options=ReaderOptions(minibatch_size=job.mb))
    if entry == "identify":
        with hooked():
            return training.identify_and_train_network(job.spec, m, epochs, **opts, **kw)
    extra = {}
    if entry == "setup":
        dm = m.value.get_data_module(input_table_spec=job.spec, reward_options=opts["reward_options"], reader_options=opts["reader_options"])
        extra["setup_data"] = dm.prepare_data()
    elif entry == "saved":  # preparation saved by an earlier run: its normalisation is kept
        dm = job.manager().value.get_data_module(input_table_spec=job.spec, reward_options=opts["reward_options"], reader_options=opts["reader_options"])
        import pickle

        prep = dm.prepare_data()
        norm = pickle.loads(prep["normalization_data_map"])
        norm = shifted(norm)
        job.saved_norm = norm
        data = {"normalization_data_map": pickle.dumps(norm)}
        if rng.random() < 0.5:
            data = {k: types.SimpleNamespace(data=v) for k, v in data.items()}
        extra["saved_setup_data"] = data
    elif entry == "given":
        other = job.manager().value
        norm = other.run_feature_identification(job.spec)
        norm = shifted(norm)
        job.saved_norm = norm
        extra["normalization_data_map"] = norm
    with hooked():
        return training.query_and_train(job.spec, m, epochs, **opts, **extra, **kw)


def whole(ctx, i, kind, mixed=False):
    rng = ctx.sub(f"run/{i}/{kind}/{mixed}")
    job = Job(rng, kind, mixed)
    entry = rng.choice(["identify", "setup", "saved"] if job.discrete else ["identify", "given"])
    with ctx.case("mixed" if mixed else "run", dict(kind=kind, entry=entry, feats=job.feats, binary=sorted(job.binary), acts=job.acts, multi=job.multi, expr=job.expr and job.expr[0], sample=job.sample, mb=job.mb, epochs=job.epochs, rows=len(job.rows), cpe=job.cpe)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", job.rows)
        rows = job.train
        if not rows or (job.cpe and not job.evaluation):
            return
        log, kw = [], {}
        spies = rng.random() < 0.6
        if spies:
            kw = dict(validator=Spy(log), publisher=Spy(log))
            verdict, published = kw["validator"].verdict, kw["publisher"].published
        elif rng.random() < 0.5:
            kw = dict(validator=ModelValidator__Union(NoValidation={}), publisher=ModelPublisher__Union(NoPublishing={}))
        mu = job.manager()
        m = mu.value
        seed = rng.randrange(1 << 30)
        out = launch(ctx, job, rng, entry, mu, seed, job.epochs, **kw)
        ctx.saw("runs")
        check_run(ctx, job, m, out, job.epochs, rows)
        if entry in ("saved", "given"):
            ctx.saw("saved_preparation" if entry == "saved" else "given_normalization")
            ctx.expect(repr(m.state_normalization_data) == repr(job.saved_norm["state"]), "given-normalisation-ignored", "")
        if spies:
            ctx.expect([x[0] for x in log] == ["validate", "publish"], "validate-then-publish", f"{[x[0] for x in log]}")
            v, p = log[0][1], log[1]
            ctx.saw("validated"), ctx.saw("published")
            ctx.expect(v.output_paths == out.output_paths and v.validation_result is None and v.training_report is out.training_report, "validator-saw-another-output", "")
            ctx.expect(p[1] is m and p[2].output_paths == out.output_paths and p[2].validation_result == verdict and p[2].publishing_result is None, "publisher-saw-another-output", "")
            ctx.expect(sorted(p[3]) == sorted(m.serving_module_names()) and len(set(p[3].values())) == len(p[3]) and p[4] == get_workflow_id() and p[5] is None, "publisher-identities", f"{p[3:]}")
            ctx.expect(out.validation_result == verdict and out.publishing_result == published, "results-lost", "")
        elif kw:
            ctx.expect(out.validation_result is not None and out.publishing_result is not None, "results-lost", "")
        else:
            ctx.expect(out.validation_result is None and out.publishing_result is None, "results-invented", "")
        if not mixed:
            resume(ctx, job, rng, entry, m, out, rows, seed)


def resume(ctx, job, rng, entry, m, out, rows, seed):
    """save, warm start, go on; against one uninterrupted run"""
    saved = {k: v.clone() for k, v in m.trainer.state_dict().items()}
    path = os.path.abspath(f"saved-{rng.randrange(10 ** 9)}")
    with hooked():
        m.save_trainer(path)
    state_equal(ctx, "saving-changes-the-trainer", m.trainer.state_dict(), saved)
    more = rng.randint(1, 2)
    mu = job.manager()
    launch(ctx, job, rng, entry, mu, seed + 1, more, warmstart_path=path)
    ctx.saw("warm_starts")
    state_equal(ctx, "warm-start-begins-elsewhere", EVENTS[0][1], saved)
    check_epochs(ctx, job, more, mu.value, rows)
    if job.kind not in ("DiscreteDQN", "DiscreteC51DQN", "DiscreteQRDQN"):
        return  # the others draw noise while training
    ended = {k: v.clone() for k, v in mu.value.trainer.state_dict().items()}
    once = job.manager()
    launch(ctx, job, rng, entry, once, seed, job.epochs + more)
    ctx.saw("continued_equal")
    state_equal(ctx, "interrupted-run-ends-elsewhere", ended, once.value.trainer.state_dict(), rtol=1e-4, atol=1e-5)


def failing(ctx, i):
    """a validator that raises stops publication; preparation and options that contradict are refused"""
    rng = ctx.sub(f"fail/{i}")
    kind = rng.choice(["DiscreteDQN", "TD3"])
    job = Job(rng, kind)
    job.epochs = 1
    with ctx.case("failing", dict(kind=kind)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", job.rows)
        if not job.train or (job.cpe and not job.evaluation):
            return
        log = []
        try:
            launch(ctx, job, rng, "identify", job.manager(), 1, 1, validator=Spy(log, fail=True), publisher=Spy(log))
        except ValueError as e:
            ctx.expect("does not validate" in str(e), "validator-failure-replaced", str(e))
            ctx.saw("refused")
        else:
            ctx.expect(False, "validator-failure-swallowed", "")
        ctx.expect([x[0] for x in log] == ["validate"], "published-after-failed-validation", f"{[x[0] for x in log]}")
        norm = {"state": NormalizationData(dense_normalization_parameters={})}
        for what, kw in (("both-preparations", dict(setup_data={"a": b""}, normalization_data_map=norm)),) + ((("no-preparation", {}),) if kind == "TD3" else ()):
            begin(1)
            try:
                with hooked():
                    training.query_and_train(job.spec, job.manager(), 1, False, reward_options=RewardOptions(), reader_options=ReaderOptions(), **kw)
            except ValueError:
                ctx.saw("refused")
            else:
                ctx.expect(False, what + "-accepted", "")
            ctx.expect(not EVENTS, "trained-before-refusing", "")


def ranges(ctx, rng):
    ts = rng.choice([None, 0.0, 100.0, 50.0, rng.uniform(0, 100)])
    es = rng.choice([None, 0.0, 100.0, 50.0, rng.uniform(0, 100), None if ts is None else 100.0 - ts])
    cpe = rng.random() < 0.6
    with ctx.case("ranges", (ts, es, cpe)):
        for fn in (training.get_sample_range, manual_data_module.get_sample_range):
            bad = cpe and (ts is None or es is None or ts + es > 100.0 + 1e-3)
            try:
                got = fn(TableSpec("t", table_sample=ts, eval_table_sample=es), cpe)
            except AssertionError:
                ctx.saw("refused")
                ctx.expect(bad, "good-ranges-refused", "")
                continue
            ctx.saw("ranges")
            ctx.expect(not bad, "bad-ranges-accepted", f"{got}")
            want = ((0.0, 100.0 if ts is None else ts), (100.0 - es, 100.0) if cpe and es is not None else (0.0, 0.0))
            ctx.expect(bad or (tuple(got.train_sample_range), tuple(got.eval_sample_range)) == want, "ranges", f"{got} want {want}")


def run(ctx):
    with ctx.part("ranges"):
        for _ in range(ctx.n(300, 2000)):
            ranges(ctx, ctx.rng)
    with ctx.part("runs"):
        for i in range(ctx.n(4, 40)):
            for kind in KINDS:
                whole(ctx, i, kind)
    with ctx.part("mixed"):
        for i in range(ctx.n(4, 20)):
            whole(ctx, i, ctx.sub(f"m{i}").choice(KINDS), mixed=True)
    with ctx.part("failing"):
        for i in range(ctx.n(3, 20)):
            failing(ctx, i)
