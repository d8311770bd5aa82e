"""E06: parallel evaluation gives the serial result."""
import vf.quiet  # noqa
import json
import multiprocessing
import os
import random
import shutil
import tempfile
import time

import numpy as np
import torch
from reagent.core.multiprocess_utils import unwrap_function_outputs, wrap_function_arguments
from reagent.ope.estimators.contextual_bandits_estimators import (
    Action, ActionDistribution, ActionRewards, BanditsEstimatorInput, IPSEstimator, LogSample)
from reagent.ope.estimators.estimator import Estimator, EstimatorResult, Evaluator
from reagent.ope.estimators.types import ActionSpace

RULE = (
    "Tagged stub estimators whose result is a function of the experiment's tag, mixed with the real importance estimators, are run "
    "by the evaluator serially and with 1 to 6 worker processes, with injected delays that vary the completion order, experiments "
    "of differing estimator sets (including none), estimators that raise and estimators with nothing to report. Every worker "
    "appends start and end events with its process id to a shared log; each (estimator, experiment) pair must be evaluated exactly "
    "once and the multiset of results under each estimator's name must be the serial one, minus exactly the failing pairs. "
    "Functions wrapped for worker pools are run with random arguments, delays and pool sizes; results come back in task order."
)
REQUIRED = {"evaluations": 100, "results": 100, "workers_seen": 12, "overlaps": 3, "interleavings": 5, "failed_pairs": 5, "none_results": 5, "real_results": 8, "pool_calls": 30}


class Stub(Estimator):
    def __init__(self, name, log, fail_at=(), none_at=(), delay=0.0):
        super().__init__()
        self.name, self.log, self.fail_at, self.none_at, self.delay = name, log, fail_at, none_at, delay

    def event(self, kind, tag):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (json.dumps([kind, self.name, tag, os.getpid()]) + "\n").encode())
        finally:
            os.close(fd)

    def evaluate(self, input, **kwargs):
        self.event("start", input)
        if self.delay:
            time.sleep(self.delay * ((hash((self.name, input)) % 7) / 7))
        self.event("end", input)
        if input in self.fail_at:
            raise RuntimeError(f"injected failure {self.name} {input}")
        if input in self.none_at:
            return None
        return self.value(input)

    def value(self, tag):
        base = sum(ord(c) for c in self.name)
        return EstimatorResult(log_reward=tag + 0.25, estimated_reward=base * 100.0 + tag, ground_truth_reward=tag * 3.0, estimated_weight=tag + base + 1.0)

    def __repr__(self):
        return self.name


def tup(r):
    return (r.log_reward, r.estimated_reward, r.ground_truth_reward, r.estimated_weight)


def read(log):
    if not os.path.exists(log):
        return []
    with open(log) as f:
        out = [json.loads(l) for l in f]
    os.unlink(log)
    return out


def evaluators(ctx, rng, i, tmp):
    n, workers = rng.randint(1, 9), rng.randint(1, 6)
    failing = rng.random() < 0.5
    with ctx.case("evaluator", f"n={n} workers={workers} failing={failing}", distinct=f"ev{i}"):
        log = os.path.join(tmp, f"log{i}")
        tags = rng.sample(range(1000), n)
        names = rng.sample(["alpha", "be", "gamma_2", "delta", "e"], rng.randint(1, 4))
        ests = [Stub(m, log, fail_at=set(t for t in tags if failing and rng.random() < 0.3), none_at=set(t for t in tags if rng.random() < 0.15), delay=0.03) for m in names]
        exps, pairs = [], []
        for t in tags:
            es = [e for e in ests if rng.random() < 0.75]
            exps.append((es, t))
            pairs += [(e, t) for e in es]
        want = {}
        for e, t in pairs:
            if t in e.fail_at:
                ctx.saw("failed_pairs")
            elif t in e.none_at:
                ctx.saw("none_results")
            else:
                want.setdefault(e.name, []).append(tup(e.value(t)))
                ctx.saw("results")
        want = {k: sorted(v) for k, v in want.items()}
        for repeat in range(2 if rng.random() < 0.3 else 1):
            before = set(os.listdir(tmp))
            ev = Evaluator(exps, workers)
            res = ev.evaluate()
            got = {k: sorted(tup(r) for r in v.results) for k, v in res.items() if v.results}
            ctx.expect(got == want, "parallel-results", f"{got} want {want}")
            ctx.expect(set(res) <= set(names), "unknown-estimator", f"{set(res)}")
            events = read(log)
            ctx.saw("evaluations", len(events) // 2)
            starts = [(a, b) for k, a, b, _ in events if k == "start"]
            ctx.expect(sorted(starts) == sorted((e.name, t) for e, t in pairs), "exactly-once", f"{sorted(starts)}")
            pids = {p for *_, p in events}
            ctx.expect(len(pids) <= workers, "too-many-workers", f"{pids}")
            ctx.saw("workers_seen", len(pids))
            order = "|".join(f"{k[0]}{a}{b}" for k, a, b, _ in events)
            if order not in ctx.__dict__.setdefault("_orders", set()):
                ctx._orders.add(order)
                ctx.saw("interleavings")
            open_, hi = 0, 0
            for k, *_ in events:
                open_ += 1 if k == "start" else -1
                hi = max(hi, open_)
            ctx.saw("overlaps", hi > 1)
            ctx.expect(set(os.listdir(tmp)) - before == set(), "leftover-files", f"{set(os.listdir(tmp)) - before}")
        # serial: the same results in experiment order, failures surface
        if not any(t in e.fail_at for e, t in pairs):
            got = {k: [tup(r) for r in v.results] for k, v in Evaluator(exps, 0).evaluate().items() if v.results}
            ordered = {}
            for e, t in pairs:
                if t not in e.none_at:
                    ordered.setdefault(e.name, []).append(tup(e.value(t)))
            ctx.expect(got == ordered, "serial-results", f"{got} want {ordered}")
            starts = [(a, b) for k, a, b, _ in read(log) if k == "start"]
            ctx.expect(sorted(starts) == sorted((e.name, t) for e, t in pairs), "serial-exactly-once", "")
        else:
            try:
                Evaluator(exps, 0).evaluate()
                ctx.expect(False, "serial-failure-hidden", "")
            except RuntimeError as e:
                ctx.expect("injected failure" in str(e), "serial-failure", str(e))
            read(log)


def real(ctx, rng, i):
    n, k = rng.randint(2, 6), rng.randint(2, 4)
    with ctx.case("real", f"n={n} actions={k}", distinct=f"re{i}"):
        r = np.random.default_rng(rng.getrandbits(32))
        exps = []
        sp = ActionSpace(k)
        for _ in range(n):
            samples = []
            for _ in range(r.integers(5, 12)):
                a, b = r.integers(0, k, size=2)
                samples.append(LogSample(context=None, log_action=Action(int(a)), log_reward=float(r.normal()),
                                         log_action_probabilities=ActionDistribution(r.random(k) + 0.05), tgt_action_probabilities=ActionDistribution(r.random(k) + 0.05),
                                         tgt_action=Action(int(b)), ground_truth_reward=float(r.normal()), item_feature=None))
            exps.append(([IPSEstimator(), IPSEstimator(weighted=True)][: int(r.integers(1, 3))], BanditsEstimatorInput(sp, samples, False)))
        a = Evaluator(exps, 0).evaluate()
        b = Evaluator(exps, rng.randint(1, 4)).evaluate()
        A = {m: sorted(tup(x) for x in v.results) for m, v in a.items()}
        B = {m: sorted(tup(x) for x in v.results) for m, v in b.items()}
        ctx.saw("real_results", sum(map(len, A.values())))
        ctx.require(set(A) == set(B) and all(len(A[m]) == len(B[m]) for m in A), "real-names", f"{A.keys()} {B.keys()}")
        for m in A:
            ctx.close(B[m], A[m], "real-results", rtol=1e-6, atol=1e-9)


def pool_task(ten, lab, idx, offset=0, scale=1, extra=None):
    time.sleep(((idx * 7) % 5) * 0.002)
    lab["k"].append(idx)  # a worker's copy: the parent's object must not change
    ten += idx
    return (idx, ten.tolist(), list(lab["k"]), scale * offset, extra, os.getpid())


def pools(ctx, rng, i):
    n, procs = rng.randint(1, 12), rng.randint(1, 4)
    with ctx.case("pool", f"n={n} procs={procs}", distinct=f"po{i}"):
        offset, t = rng.randint(-50, 50), torch.randn(3)
        keep = t.clone()
        label = {"k": [offset]}

        wrapped = wrap_function_arguments(pool_task, t, label, offset=offset, scale=rng.randint(2, 5), extra=(1, "x"))
        scale = None
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            out = unwrap_function_outputs(pool.map(wrapped, range(n), chunksize=1))
        ctx.saw("pool_calls", n)
        ctx.expect([o[0] for o in out] == list(range(n)), "pool-order", f"{[o[0] for o in out]}")
        for j, o in enumerate(out):
            ctx.close(o[1], (keep + j).tolist(), "pool-args", rtol=1e-6, atol=1e-6)
            ctx.expect(o[2] == [offset, j] and o[4] == (1, "x") and o[5] != os.getpid(), "pool-isolation", f"{o}")
            scale = scale if scale is not None else o[3]
            ctx.expect(o[3] == scale and (offset == 0 or o[3] / offset in (2, 3, 4, 5)), "pool-kwargs", f"{o[3]} {offset}")
        ctx.expect(torch.equal(t, keep) and label == {"k": [offset]}, "parent-untouched", f"{label}")


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="e06_")
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        with ctx.part("evaluator"):
            rng = ctx.sub("evaluator")
            for i in range(ctx.n(24, 300)):
                evaluators(ctx, rng, i, tmp)
        with ctx.part("real"):
            rng = ctx.sub("real")
            for i in range(ctx.n(5, 60)):
                real(ctx, rng, i)
        with ctx.part("pools"):
            rng = ctx.sub("pools")
            for i in range(ctx.n(8, 80)):
                pools(ctx, rng, i)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(tmp, ignore_errors=True)
