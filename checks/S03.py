"""S03: publishing keeps exactly what was published; no-op validators and publishers alter nothing."""
import vf.quiet  # noqa
import vf.stubs  # noqa
import copy
import dataclasses
import json
import os
import subprocess
import sys
import time
import types

import torch
import reagent.types as rlt
from reagent.core.registry_meta import RegistryMeta
from reagent.core.tagged_union import TaggedUnion
from reagent.core.result_types import NoPublishingResults, NoValidationResults
from reagent.parameters import EvaluationParameters, NormalizationData, NormalizationParameters
from reagent.prediction import predictor_wrapper as pw
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.publishers.file_system_publisher import FileSystemPublisher
from reagent.publishers.no_publishing import NoPublishing
from reagent.publishers.union import ModelPublisher__Union
from reagent.validators.no_validation import NoValidation
from reagent.validators.union import ModelValidator__Union
from reagent.workflow import training as wf
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.training_reports import DQNTrainingReport
from reagent.workflow.types import RewardOptions, RLTrainingOutput, RLTrainingReport, TableSpec

RULE = (
    "Random histories of publish and look-up run against the file-system publisher: up to 8 model identities (managers of several kinds "
    "whose options differ in one deep field), up to 3 module names, several publisher objects on the same file opened and re-opened at "
    "random, publications whose artefact is missing, and look-ups from a second process; a dictionary model predicts every answer. The "
    "training workflow is run with a stand-in trainer and every saved artefact is loaded through the publisher and compared with the "
    "network it names. No-op validators and publishers must hand on every field unchanged, refuse to run twice, and option unions must hold "
    "exactly one member. Sample ranges must be the declared, disjoint shares."
)
REQUIRED = {"publications": 150, "lookups": 1500, "unknown": 100, "replaced": 40, "handles": 30, "missing_artefacts": 8, "second_process": 10, "artefacts": 12,
            "same_second": 4, "handed_on": 30, "refused_twice": 20, "unions": 30, "ranges": 100, "stages": 20}

MANAGERS = {n: a.__args__[0] for n, a in ModelManager__Union.__annotations__.items()}


def manager(cfg):
    """a manager from a plain description; equal descriptions are equal identities"""
    kind, over = cfg["kind"], copy.deepcopy(cfg["over"])
    return MANAGERS[kind](**over)


def identities(rng):
    """managers differing in a single, possibly deep, option"""
    acts = rng.choice([["0", "1"], ["a", "b", "c"]])
    base = {"trainer_param": {"actions": acts, "rl": {"gamma": 0.9}}}

    def deep(path, v):
        d = copy.deepcopy(base)
        x = d
        for p in path[:-1]:
            x = x.setdefault(p, {})
        x[path[-1]] = v
        return d

    kinds = rng.choice(["DiscreteDQN", "DiscreteQRDQN", "DiscreteDQN", "DiscreteC51DQN"])
    out = [dict(kind=kinds, over=base)]
    alts = [(["trainer_param", "rl", "gamma"], 0.95), (["trainer_param", "rl", "gamma"], 0.9000001), (["trainer_param", "rl", "target_update_rate"], 0.2), (["trainer_param", "minibatch_size"], 512),
            (["trainer_param", "actions"], acts[::-1]), (["trainer_param", "double_q_learning"], False), (["eval_parameters", "calc_cpe_in_training"], False),
            (["trainer_param", "optimizer"], {"Adam": {"lr": 0.5}}), (["trainer_param", "optimizer"], {"SGD": {"lr": 0.5}}), (["target_action_distribution"], [0.5] * len(acts))]
    if kinds in ("DiscreteQRDQN", "DiscreteC51DQN"):
        alts = [a for a in alts if a[0][0] != "target_action_distribution"]
    for p, v in rng.sample(alts, rng.randint(2, 5)):
        out.append(dict(kind=kinds, over=deep(p, v)))
    for other in rng.sample(["SAC", "TD3", "ParametricDQN"], rng.randint(0, 2)):
        out.append(dict(kind=other, over={"trainer_param": {"rl": {"gamma": 0.9}}}))
    return out


def history(ctx, k):
    rng = ctx.sub(f"h{k}")
    here = f"h{k}"
    os.makedirs(here)
    db = os.path.join(here, "db")
    cfgs = identities(rng)
    modules = rng.sample(["default_model", "dqn", "actor_dqn", "model", "default"], rng.randint(1, 3))
    with ctx.case("history", dict(kinds=[c["kind"] for c in cfgs], modules=modules), distinct=k):
        for a, c in enumerate(cfgs):  # as options, they are different
            for b in range(a):
                ctx.require(str(manager(c)) != str(manager(cfgs[b])), "identities-collide", f"{c} {cfgs[b]}")
        pubs = [FileSystemPublisher(publishing_file=db)]
        truth, files, earlier = {}, 0, {}

        def look(pub):
            for i, c in enumerate(cfgs):
                m = manager(c)
                for name in modules:
                    ctx.saw("lookups")
                    want = truth.get((i, name))
                    try:
                        got = pub.get_latest_published_model(m, name)
                    except ValueError as e:
                        got = None
                        ctx.saw("unknown")
                        ctx.expect(want is None, "published-model-not-found", f"{name} {c}: {e}")
                        continue
                    ctx.expect(got == want, "not-the-newest-publication" if got in earlier.get((i, name), []) else "another-publication", f"{name}: {got} want {want}")
                    ctx.expect(os.path.exists(got), "path-without-artefact", got)

        for step in range(rng.randint(6, 14)):
            op = rng.choice(["publish", "publish", "publish", "republish", "open", "missing", "look"])
            if op == "open":
                if len(pubs) < 3:
                    pubs.append(FileSystemPublisher(publishing_file=os.path.join(os.getcwd(), db) if rng.random() < 0.5 else db))
                else:
                    pubs[rng.randrange(3)] = FileSystemPublisher(publishing_file=db)
                ctx.saw("handles")
            pub = rng.choice(pubs)
            i = rng.randrange(len(cfgs)) if op != "republish" or not truth else rng.choice(sorted(truth))[0]
            names = rng.sample(modules, rng.randint(1, len(modules)))
            if op in ("publish", "republish"):
                paths = {}
                for name in names:
                    files += 1
                    p = os.path.join(here, f"model{files}.torchscript")
                    open(p, "w").write(str(files))
                    paths[name] = p
                out = RLTrainingOutput(output_paths=dict(paths))
                model = types.SimpleNamespace(value=manager(cfgs[i])) if rng.random() < 0.5 else ModelManager__Union.make_union_instance(manager(cfgs[i]))
                if rng.random() < 0.5:
                    union = ModelPublisher__Union(FileSystemPublisher=pub) if rng.random() < 0.5 else ModelPublisher__Union.make_union_instance(pub)
                    got = wf.run_publisher(union, model, out, {n: rng.randrange(99) for n in names}, rng.randrange(99), None).publishing_result
                else:
                    got = pub.publish(model.value, out, {}, 1, None)
                ctx.expect(isinstance(got.value, NoPublishingResults) and got.value.success is True, "publication-result", f"{got}")
                ctx.expect(out.output_paths == paths, "publishing-changes-output", f"{out}")
                ctx.saw("publications", len(names))
                for name, p in paths.items():
                    ctx.saw("replaced", (i, name) in truth)
                    earlier.setdefault((i, name), []).append(truth.get((i, name)))
                    truth[(i, name)] = p
            if op == "missing":  # nothing may refer to an artefact that was never written
                ctx.saw("missing_artefacts")
                try:
                    pub.publish(manager(cfgs[i]), RLTrainingOutput(output_paths={names[0]: os.path.join(here, "never-written")}), {}, 1, None)
                    ctx.expect(False, "published-missing-artefact", "")
                except AssertionError:
                    pass
            for p in pubs:
                if rng.random() < 0.4:
                    look(p)
        for p in pubs + [FileSystemPublisher(publishing_file=db)]:
            look(p)
    return dict(db=os.path.abspath(db), cfgs=cfgs, want=[[i, n, v] for (i, n), v in truth.items()])


def child():
    """look-ups from another process: prints the answers"""
    out = []
    for j in json.load(sys.stdin):
        pub = FileSystemPublisher(publishing_file=j["db"])
        out.append([pub.get_latest_published_model(manager(j["cfgs"][i]), n) for i, n, _ in j["want"]])
    print("ANSWERS " + json.dumps(out))


def second_process(ctx, jobs):
    with ctx.case("second_process", dict(histories=len(jobs)), distinct="p"):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import checks.S03 as s; s.child()"], input=json.dumps(jobs), capture_output=True, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith("ANSWERS ")]
        ctx.require(len(line) == 1, "second-process-lookup-failed", p.stderr[-600:])
        for j, got in zip(jobs, json.loads(line[0][8:])):
            for (_, name, want), g in zip(j["want"], got):
                ctx.saw("second_process")
                ctx.expect(g == want, "second-process-answer", f"{name}: {g} want {want}")


def norm(n, lo=0):
    return NormalizationData(dense_normalization_parameters={lo + j: NormalizationParameters(feature_type="CONTINUOUS", mean=0.5 * j, stddev=1.0 + j) for j in range(n)})


def workflow(ctx, k, stay):
    """train_workflow with a stand-in for training -> artefacts -> publisher -> loaded modules"""
    rng = ctx.sub(f"w{k}")
    ctx.seed_all(f"w{k}")
    kind = ["DiscreteDQN", "DiscreteCRR", "DiscreteQRDQN", "DiscreteC51DQN", "ParametricDQN", "TD3"][k % 6]
    acts = ["a", "b", "c"][: rng.randint(2, 3)]
    S = rng.randint(1, 3)
    nmap = {"state": norm(S), "action": norm(2, 50)}
    tp = {"rl": {"gamma": rng.choice([0.5, 0.9])}}
    if kind.startswith("Discrete"):
        tp["actions"] = acts
    over = {"trainer_param": tp}
    over["eval_parameters"] = {"calc_cpe_in_training": False}
    if kind == "TD3":
        nmap["action"] = NormalizationData(dense_normalization_parameters={50: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-2.0, max_value=3.0)})
    if kind == "ParametricDQN" or kind == "TD3":
        over.pop("eval_parameters")
    cfg = dict(kind=kind, over=over)
    with ctx.case("workflow", dict(kind=kind, actions=acts), distinct=k):
        m = manager(cfg)
        trained = []

        def train(*a, **kw):
            with torch.no_grad():
                for p in m.trainer.parameters():
                    p.copy_(torch.randn_like(p))
            trained.append(1)
            return RLTrainingOutput(training_report=RLTrainingReport.make_union_instance(DQNTrainingReport(td_loss=1.5)))

        m.train = train
        out = m.train_workflow(None, None, num_epochs=1, use_gpu=False, named_model_ids={}, child_workflow_id=1, normalization_data_map=nmap, reward_options=RewardOptions())
        ctx.expect(trained == [1], "trained-times", f"{trained}")
        ctx.expect(out.training_report.value.td_loss == 1.5, "report-lost", f"{out}")
        ctx.expect(sorted(out.output_paths) == sorted(m.serving_module_names()), "module-names", f"{out.output_paths} {m.serving_module_names()}")
        ctx.expect(len(set(out.output_paths.values())) == len(out.output_paths), "artefacts-share-a-path", f"{out.output_paths}")
        pub = FileSystemPublisher(publishing_file="workflow_db")
        pub.publish(m, out, {}, 1, None)
        stay.append((cfg, m, nmap, out))


def loaded(ctx, stay):
    """after every run: what the publisher points at is what that run trained"""
    pub = FileSystemPublisher(publishing_file="workflow_db")
    last = {}
    for cfg, m, nmap, out in stay:
        last[json.dumps(cfg, sort_keys=True)] = (m, nmap, out)
    paths = [p for _, _, _, o in stay for p in o.output_paths.values()]
    with ctx.case("loaded", dict(runs=len(stay)), distinct="l"):
        ctx.expect(len(set(paths)) == len(paths), "artefacts-share-a-path", f"{sorted(paths)}")
        for key, (m, nmap, out) in last.items():
            cfg = json.loads(key)
            for name in m.serving_module_names():
                path = pub.get_latest_published_model(manager(cfg), name)
                mod = torch.jit.load(path)
                ctx.saw("artefacts")
                S = len(nmap["state"].dense_normalization_parameters)
                n = 3
                raw = (torch.randn(n, S), torch.ones(n, S))
                pre = Preprocessor(nmap["state"].dense_normalization_parameters, False)
                x = rlt.FeatureData(pre(*raw))
                t = m.trainer
                with torch.no_grad():
                    if cfg["kind"] == "ParametricDQN":
                        ap = Preprocessor(nmap["action"].dense_normalization_parameters, False)
                        a = (torch.randn(n, 2), torch.ones(n, 2))
                        got = mod(raw, a)[1]
                        want = t.q_network.eval()(x, rlt.FeatureData(ap(*a)))
                    elif cfg["kind"] == "TD3":
                        got = mod(raw)
                        y = t.actor_network.eval()(x).action
                        want = -2.0 + (y + 1) * 2.5
                    elif cfg["kind"] == "DiscreteCRR" and name == "default_model":
                        got = mod(raw)
                        want = t.actor_network.eval()(x).action
                    else:
                        names, got = mod(rlt.ServingFeatureData(raw, dict(pw.FAKE_STATE_ID_LIST_FEATURES), dict(pw.FAKE_STATE_ID_SCORE_LIST_FEATURES)))
                        ctx.expect(list(names) == m.action_names, "artefact-actions", f"{names}")
                        if cfg["kind"] == "DiscreteCRR":
                            want = t.q1_network.eval()(x) if name == "dqn" else t.actor_network.eval()(x).action
                        else:
                            want = t.q_network.eval()(x)
                        want = want.mean(2) if want.dim() == 3 else want
                ctx.close(got, want, "artefact-is-another-model", rtol=1e-3, atol=1e-3)


def noop(ctx, k):
    rng = ctx.sub(f"n{k}")
    with ctx.case("noop", k, distinct=k, trivial=k > 20):
        out = RLTrainingOutput(output_paths={f"m{j}": f"/p/{rng.random()}" for j in range(rng.randint(0, 3))},
                               training_report=rng.choice([None, RLTrainingReport.make_union_instance(DQNTrainingReport(td_loss=rng.random()))]))
        before = copy.deepcopy(out)
        val = ModelValidator__Union(NoValidation=NoValidation()) if rng.random() < 0.5 else ModelValidator__Union.make_union_instance(NoValidation())
        pub = ModelPublisher__Union(NoPublishing=NoPublishing()) if rng.random() < 0.5 else ModelPublisher__Union.make_union_instance(NoPublishing())
        model = types.SimpleNamespace(value=object())
        steps = [("validate", "validation_result"), ("publish", "publishing_result")]
        rng.shuffle(steps)
        now = out
        for what, f in steps:
            args = (val, now) if what == "validate" else (pub, model, now, {"a": 1}, 2, None)
            run_ = wf.run_validator if what == "validate" else wf.run_publisher
            kept = copy.deepcopy(now)
            new = run_(*args)
            ctx.saw("handed_on")
            ctx.expect(now == kept, "noop-alters-its-input", f"{now} {kept}")
            for fl in dataclasses.fields(RLTrainingOutput):
                if fl.name != f:
                    ctx.expect(getattr(new, fl.name) == getattr(kept, fl.name), "noop-alters-" + fl.name, f"{new} {kept}")
            r = getattr(new, f).value
            ctx.expect(isinstance(r, NoValidationResults) and r.should_publish is True if what == "validate" else isinstance(r, NoPublishingResults) and r.success is True, "noop-rejects", f"{r}")
            now = new
            ctx.saw("refused_twice")
            try:
                run_(*((val, now) if what == "validate" else (pub, model, now, {"a": 1}, 2, None)))
                ctx.expect(False, what + "-twice-accepted", "")
            except AssertionError:
                pass
        ctx.expect(dataclasses.replace(now, validation_result=None, publishing_result=None) == before, "noop-alters-output", f"{now} {before}")


def unions(ctx, k):
    rng = ctx.sub(f"u{k}")
    falsy = rng.random() < 0.5

    class Base(metaclass=RegistryMeta):
        def __init__(self, x=0):
            self.x = x

        def __len__(self):
            return self.x if falsy else 5

        def __eq__(self, o):
            return type(self) is type(o) and self.x == o.x

        def __hash__(self):
            return self.x

    n = rng.randint(1, 4)
    names = rng.sample("ABCDEFG", n)
    for nm in names:
        attrs = {"__registry_name__": "r" + nm} if rng.random() < 0.4 else {}
        type(Base)(nm, (Base,), attrs)
    with ctx.case("unions", dict(names=names, falsy=falsy), distinct=k, trivial=k > 50):
        @Base.fill_union()
        class U(TaggedUnion):
            pass
        ctx.expect(set(U.__annotations__) == set(Base.REGISTRY), "union-members", f"{U.__annotations__}")
        for key, cls in Base.REGISTRY.items():
            x = rng.choice([0, 0, 3])
            inst = cls(x)
            for u in (U.make_union_instance(inst), U(**{key: inst})):
                ctx.saw("unions")
                ctx.expect(u.value is inst or u.value == inst, "union-value", f"{u} {key}")
                ctx.expect([f.name for f in dataclasses.fields(u) if getattr(u, f.name) is not None] == [key], "union-members-set", f"{u}")
        for bad in [{}] + ([{a: Base.REGISTRY[a](2) for a in sorted(Base.REGISTRY)[:2]}] if n > 1 else []):
            try:
                v = U(**bad).value
                ctx.expect(False, "union-not-exactly-one", f"{bad}: {v}")
            except AssertionError:
                pass
        try:
            type(Base)("Late", (Base,), {})
            ctx.expect(False, "union-registers-late", "")
        except AssertionError:
            pass


def ranges(ctx, k):
    rng = ctx.sub(f"r{k}")
    from reagent.workflow.data import manual_data_module as mdm
    with ctx.case("ranges", k, distinct=k, trivial=k > 30):
        ts = rng.choice([None, 100.0, 0.0, rng.uniform(0, 100), 90.0, 50.0])
        es = rng.choice([None, 0.0, 10.0, 50.0, rng.uniform(0, 100)])
        for f in (wf.get_sample_range, mdm.get_sample_range):
            for cpe in (False, True):
                ctx.saw("ranges")
                legal = not cpe or (ts is not None and es is not None and ts + es <= 100.0 + 1e-3)
                if cpe and ts is not None and es is not None and 100 < ts + es <= 100.01:
                    continue
                try:
                    r = f(TableSpec(table_name="t", table_sample=ts, eval_table_sample=es), cpe)
                except AssertionError:
                    ctx.expect(not legal, "legal-range-refused", f"{ts} {es} {cpe}")
                    continue
                ctx.expect(legal, "illegal-range-accepted", f"{ts} {es} {cpe}: {r}")
                want = ((0.0, 100.0 if ts is None else ts), (100.0 - es, 100.0) if cpe else (0.0, 0.0))
                ctx.expect((tuple(r.train_sample_range), tuple(r.eval_sample_range)) == want, "sample-range", f"{ts} {es} {cpe}: {r}")
                if cpe:
                    ctx.expect(r.train_sample_range[1] <= r.eval_sample_range[0] + 1e-3, "ranges-overlap", f"{r}")


class Fake:
    """records how the workflow drives a manager"""

    def __init__(self, cpe, module):
        self.should_generate_eval_dataset = cpe
        self.log, self.module = [], module

    def serving_module_names(self):
        return ["m1", "m2"]

    def get_data_module(self, **kw):
        self.log.append(("module", kw))
        return self.module

    def run_feature_identification(self, spec):
        self.log.append(("identify", spec))
        return {"state": "norm"}

    def query_data(self, *, input_table_spec, sample_range, reward_options):
        self.log.append(("query", input_table_spec, sample_range, reward_options))
        return ("data", sample_range)

    def train_workflow(self, train_dataset, eval_dataset, **kw):
        self.log.append(("train", train_dataset, eval_dataset, kw))
        self.out = RLTrainingOutput(output_paths={"m1": "/a", "m2": "/b"})
        return self.out


def stages(ctx, k):
    """the whole workflow in order, each stage given what the earlier one produced"""
    rng = ctx.sub(f"s{k}")
    with ctx.case("stages", k, distinct=k):
        cpe, use_module = rng.random() < 0.5, rng.random() < 0.4
        module = types.SimpleNamespace(prepare_data=lambda: {"train_dataset": b"x"}) if use_module else None
        m = Fake(cpe, module)
        spec = TableSpec(table_name="t", table_sample=rng.uniform(0, 60), eval_table_sample=rng.uniform(1, 40))
        seen = []

        class Val:
            def validate(self, out):
                seen.append(("validate", out))
                return NoValidation().validate(out)

        class Pub:
            def publish(self, mm, out, ids, child, period):
                seen.append(("publish", mm, out, ids, child, period))
                return NoPublishing().publish(mm, out, ids, child, period)

        v, p = rng.random() < 0.7, rng.random() < 0.7
        rw = rng.choice([None, RewardOptions(metric_reward_values={"x": 2.0})])
        epochs = rng.randint(1, 5)
        out = wf.identify_and_train_network(spec, types.SimpleNamespace(value=m), epochs, use_gpu=False, reward_options=rw, warmstart_path=rng.choice([None, "/w"]),
                                            validator=types.SimpleNamespace(value=Val()) if v else None, publisher=types.SimpleNamespace(value=Pub()) if p else None)
        ctx.saw("stages")
        q = [e for e in m.log if e[0] == "query"]
        t = [e for e in m.log if e[0] == "train"]
        ctx.require(len(t) == 1, "stage-trained-times", f"{m.log}")
        kw = t[0][3]
        ctx.expect(kw["num_epochs"] == epochs and kw["use_gpu"] is False, "stage-options", f"{kw}")
        ctx.expect(kw["reward_options"] == (rw or RewardOptions()), "stage-reward-options", f"{kw}")
        if use_module:
            ctx.expect(not q and kw["setup_data"] == {"train_dataset": b"x"} and kw["normalization_data_map"] is None and t[0][1] is None and t[0][2] is None, "stage-module-data", f"{m.log}")
        else:
            ctx.expect([e[0] for e in m.log if e[0] == "identify"] == ["identify"] and kw["normalization_data_map"] == {"state": "norm"} and kw["setup_data"] is None, "stage-normalization", f"{m.log}")
            want = [(0.0, spec.table_sample)] + ([(100.0 - spec.eval_table_sample, 100.0)] if cpe else [])
            ctx.expect([tuple(e[2]) for e in q] == want and all(e[1] == spec for e in q), "stage-queried-ranges", f"{q} want {want}")
            ctx.expect(t[0][1] == ("data", want[0]) and t[0][2] == (("data", want[1]) if cpe else None), "stage-datasets", f"{t}")
        ctx.expect([e[0] for e in seen] == ["validate"] * v + ["publish"] * p, "stage-order", f"{seen}")
        now = m.out
        if v:
            ctx.expect(seen[0][1] is now, "stage-validated", f"{seen}")
            now = dataclasses.replace(now, validation_result=out.validation_result)
        if p:
            e = seen[-1]
            ctx.expect(e[1] is m and e[2] == now and e[3] == kw["named_model_ids"] and sorted(e[3]) == ["m1", "m2"] and len(set(e[3].values())) == 2 and e[4] == kw["child_workflow_id"], "stage-published", f"{seen}")
        ctx.expect((out.validation_result is not None) == v and (out.publishing_result is not None) == p and out.output_paths == m.out.output_paths, "stage-result", f"{out}")


def run(ctx):
    jobs = []
    with ctx.part("history"):
        for k in range(ctx.n(24, 500)):
            j = history(ctx, k)
            if j and j["want"] and len(jobs) < 10:
                jobs.append(j)
        second_process(ctx, jobs)
    with ctx.part("workflow"):
        stay, last = [], None
        for k in range(ctx.n(18, 120)):
            now = round(time.time())
            ctx.saw("same_second", now == last)
            last = now
            workflow(ctx, k, stay)
        loaded(ctx, stay)
    for name, f, q, t in [("noop", noop, 40, 400), ("unions", unions, 40, 400), ("ranges", ranges, 60, 600), ("stages", stages, 40, 400)]:
        with ctx.part(name):
            for k in range(ctx.n(q, t)):
                f(ctx, k)
