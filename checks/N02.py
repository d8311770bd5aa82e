"""N02: decision plans run every operator once, in dependency order, without races."""
import vf.quiet  # noqa
import collections
import json
import os

from vf import native
from vf.native import constant

RULE = ("Random acyclic plans over recording operators (operators listed in any order, inputs from operators, constants and the request) are "
        "served through the HTTP handlers while a stand-in parallel executor picks ready tasks at random on 1-8 threads and dawdles; an event "
        "log monitor checks once-only execution, dependency order, the exact inputs, the response and the later feedback to operators. The "
        "code is compiled with ThreadSanitizer (plans of the real stateful operators in parallel) and with AddressSanitizer+UBSan (malformed "
        "plans). Non-trivial = at least one dependency between operators.")
REQUIRED = {"operator_runs": 800, "dependencies": 800, "overlapping_pairs": 200, "distinct_orders": 60, "feedbacks_to_operators": 300,
            "refused": 40, "failed_operators": 10, "parallel_stateful_runs": 300, "served_after_refusal": 20}
ASSUMPTIONS = ["cpp-taskflow is replaced by a stand-in executor with the same interface; tasks on a cycle never become ready",
               "requests are served one at a time, as the HTTP server's single handler thread does"]

VALUES = ["text", "", 3, -7, 2.5, ["a", "b"], [1, 2], [0.5, -1.0], {"a": "b"}, {"a": 1}, {"a": 1.5, "b": -2.0}, {"a": {"b": 0.25}},
          [{"name": "x", "propensity": 0.5}]]


def random_plan(rng, most=12):
    """operators, constants; the last operator ranks and is the output."""
    n = rng.randint(1, most)
    names = [f"{rng.choice(['op', 'Op ', 'é', 'n/'])}{i}" for i in range(n)]
    constants = {f"c{i}": rng.choice(VALUES) for i in range(rng.randint(0, 4))}
    constants.update({f"delay{i}": rng.choice([0, 0, 50, 300, 800]) for i in range(3)})
    width = rng.choice([0, 1, 2, 3, 6])
    ops = []
    for i, name in enumerate(names):
        deps = {}
        for k in range(rng.randint(0, width) if i else 0):
            deps[f"from{k}"] = names[rng.randrange(max(0, i - rng.choice([2, 5, 99])), i)]
        for k in range(rng.randint(0, 2)):
            deps[f"const{k}"] = rng.choice(sorted(c for c in constants if not c.startswith("delay")) + ["input"])
        if rng.random() < 0.6:
            deps["delay"] = f"delay{rng.randrange(3)}"
        ops.append({"name": name, "op_name": rng.choice(["Trace", "TraceScores"]), "input_dep_map": deps})
    ops[-1]["op_name"] = "TraceRanked"
    for op in ops[:-1]:  # usually everything leads somewhere
        if rng.random() < 0.3 and n > 1:
            ops[-1]["input_dep_map"]["also " + op["name"]] = op["name"]
    head = ops[:-1]
    if rng.random() < 0.7:
        rng.shuffle(head)
    return head + ops[-1:], constants


def config(ops, constants, reward="", aggregator="max"):
    return {"operators": ops, "constants": [{"name": k, "value": constant(v)} for k, v in constants.items()], "num_actions_to_choose": 1,
            "reward_function": reward, "reward_aggregator": aggregator}


def install(rng, s, name, cfg):
    """The plan reaches the service through the API or through a file in its configuration directory."""
    if rng.random() < 0.5:
        svc = s.fresh()
        s.call("plan", service=svc, name=name, config=cfg)
        return svc
    d = f"conf{s.number}-{id(cfg)}"
    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
    with open(os.path.join(d, name), "w") as f:
        json.dump(cfg, f)
    return s.fresh(config_dir=d)


def by_op(events, plan):
    log = collections.defaultdict(lambda: collections.defaultdict(list))
    for i, e in enumerate(events):
        if e["plan"] == plan:
            log[e["name"]][e["what"]].append((i, e["data"]))
    return log


def check_run(ctx, ops, constants, given, events, plan, failed=()):
    """The oracle of one evaluation: once each, after its inputs, on exactly what they produced."""
    log = by_op(events, plan)
    names = {o["name"] for o in ops}
    ctx.require(set(log) <= names, "runs-only-its-operators", f"operators outside the plan ran: {set(log) - names}")
    for op in ops:
        mine = log[op["name"]]
        starts, ends = mine["start"], mine["end"]
        if not failed:
            ctx.require(len(starts) == 1 and len(ends) == 1, "each-operator-once", f"{op['name']} started {len(starts)} and ended {len(ends)} times")
        else:
            ctx.require(len(starts) <= 1 and len(ends) <= 1, "each-operator-once", f"{op['name']} started {len(starts)} times")
        if not starts:
            continue
        ctx.saw("operator_runs")
        at, what = starts[0]
        want = {}
        for name, source in op["input_dep_map"].items():
            if source in names:
                done = log[source]["end"]
                ctx.require(done and done[0][0] < at, "after-its-inputs", f"{op['name']} started before {source}, which it takes {name} from, had ended")
                ctx.saw("dependencies")
                want[name] = done[0][1]
            elif source == "input":
                want[name] = given
            else:
                want[name] = constant(constants[source])
        ctx.require(what["inputs"] == want, "exact-inputs", f"{op['name']} ran on {what['inputs']}, its inputs were {want}")
    return log


def overlaps(log):
    spans = [(v["start"][0][0], v["end"][0][0]) for v in log.values() if v["start"] and v["end"]]
    return sum(a < d and c < b for i, (a, b) in enumerate(spans) for c, d in spans[:i])


def plans(ctx, s):
    rng = ctx.sub("plans")
    orders = set()
    for i in range(ctx.n(160, 800)):
        ops, constants = random_plan(rng, rng.choice([3, 8, 14]))
        name = rng.choice(["plan.json", "app/plan.json", "deep/er/p"])
        shape = [(o["name"], sorted(o["input_dep_map"].items())) for o in ops]
        with ctx.case("plan", shape, trivial=not any(v in {o["name"] for o in ops} for o in ops for v in o["input_dep_map"].values())):
            s.call("control", threads=rng.choice([1, 2, 4, 8]), dawdle_us=rng.choice([0, 100, 600]), seed=rng.getrandbits(30))
            svc = install(rng, s, name, config(ops, constants, aggregator=rng.choice(["sum", "max"])))
            s.call("trace")
            for r in range(rng.randint(1, 4)):
                given = constant(rng.choice(VALUES))
                body = {"request_id": f"id{r}", "plan_name": name, "actions": {"names": ["a", "b"]}, "input": given}
                if rng.random() < 0.2:
                    del body["input"]
                    given = {"string_value": ""}
                got = s.post(svc, "/api/request", body)
                ctx.require(got["status"] == 200 and got["written"] == 1, "serves-valid-plan", f"answered {got}")
                t = s.call("trace")
                log = check_run(ctx, ops, constants, given, t["events"], name)
                orders.add((tuple(map(str, shape)), tuple(t["order"])))
                ctx.saw("overlapping_pairs", overlaps(log))
                answer = json.loads(got["body"])
                last = log[ops[-1]["name"]]["end"][0][1]["ranked_action_list"]
                ctx.require(answer["actions"] == last, "answers-with-the-output-operator", f"answered {answer['actions']}, the output operator gave {last}")
                ctx.require(answer["request_id"] == f"id{r}" and answer["plan_name"] == name, "answer-is-for-the-request", f"{answer}")
                if rng.random() < 0.6:
                    fb = {"plan_name": name, "request_id": f"id{r}", "actions": [{"name": "x", "metrics": {"m": 1.5}}]}
                    got = s.post(svc, "/api/feedback", fb)
                    ctx.require(got["status"] == 200, "takes-feedback", f"{got}")
                    later = by_op(s.call("trace")["events"], name)
                    for op in ops:
                        fed = later[op["name"]]["feedback"]
                        ctx.require(len(fed) == 1 and not later[op["name"]]["start"], "feedback-reaches-each-operator-once", f"{op['name']}: {len(fed)}")
                        ctx.require(fed[0][1]["inputs"] == log[op["name"]]["start"][0][1]["inputs"] and fed[0][1]["output"] == log[op["name"]]["end"][0][1],
                                    "feedback-carries-past-inputs-and-output", f"{op['name']} was fed {fed[0][1]}")
                        ctx.saw("feedbacks_to_operators")
            s.call("close", service=svc)
    ctx.saw("distinct_orders", len(orders))


def stateful(ctx, s):
    """Real operators with shared state, side by side, under ThreadSanitizer."""
    rng = ctx.sub("stateful")
    for i in range(ctx.n(40, 200)):
        width = rng.randint(3, 9)
        ops, constants = [], {"targets": {"a": 0.5, "b": 0.25}, "m": "UCB1", "t": 0.7, "e": 0.3, "rho": 1.0, "gamma": 2.0, "eq": "x * 2 + 1", "mod": 3, "snap": 1}
        kinds = []
        for k in range(width):
            kind = rng.choice(["PropensityFit", "PropensityFit", "Ucb", "SoftmaxRanker", "EpsilonGreedyRanker", "Frechet", "Softmax", "Expression",
                               "ActionValueScoring", "InputFromRequest"])
            deps = {"PropensityFit": {"input": "input", "targets": "targets"}, "Ucb": {"method": "m"}, "SoftmaxRanker": {"values": "input", "temperature": "t"},
                    "EpsilonGreedyRanker": {"values": "input", "epsilon": "e"}, "Frechet": {"values": "input", "rho": "rho", "gamma": "gamma"},
                    "Softmax": {"values": "input", "temperature": "t"}, "Expression": {"equation": "eq", "x": "input"},
                    "ActionValueScoring": {"model_id": "mod", "snapshot_id": "snap"}, "InputFromRequest": {}}[kind]
            ops.append({"name": f"{kind}{k}", "op_name": kind, "input_dep_map": deps})
            kinds.append(kind)
        ops.append({"name": "all", "op_name": "TraceRanked", "input_dep_map": {f"i{k}": f"{kind}{k}" for k, kind in enumerate(kinds)}})
        with ctx.case("stateful", kinds):
            s.call("control", threads=8, dawdle_us=rng.choice([0, 40, 300]), seed=rng.getrandbits(30))
            svc = install(rng, s, "p.json", config(ops, constants, reward="m - 1", aggregator="sum"))
            s.call("trace")
            shifted = 0
            for r in range(ctx.n(12, 30)):
                given = {"a": rng.random(), "b": rng.random(), "c": rng.random()}
                got = s.post(svc, "/api/request", {"request_id": f"r{r}", "plan_name": "p.json", "actions": {"names": ["a", "b", "c"]}, "input": constant(given)})
                ctx.require(got["status"] == 200, "serves-valid-plan", f"answered {got}")
                ctx.saw("parallel_stateful_runs", width)
                events = s.call("trace")["events"]
                inputs = [e for e in events if e["what"] == "start"][0]["data"]["inputs"]
                for k, kind in enumerate(kinds):
                    out = inputs[f"i{k}"]
                    if kind == "InputFromRequest":
                        ctx.expect(out == constant(given), "stateful-output", f"{kind} gave {out}")
                    if kind == "Expression":
                        ctx.close([out["map_double_value"][a] for a in given], [v * 2 + 1 for v in given.values()], "stateful-output", rtol=1e-9)
                    if kind == "PropensityFit":
                        moved = {a: out["map_double_value"][a] - v for a, v in given.items()}
                        ctx.expect(abs(moved["c"]) < 1e-9 and all(abs(v) < 0.01 * (shifted + 1e-6) + 1e-9 for v in moved.values()), "stateful-output",
                                   f"{kind} moved {moved} after {shifted} feedbacks")
                    if kind in ("SoftmaxRanker", "EpsilonGreedyRanker"):
                        ctx.expect(sorted(a["name"] for a in out["ranked_action_list"]) == sorted(given), "stateful-output", f"{kind} gave {out}")
                if rng.random() < 0.7:
                    got = s.post(svc, "/api/feedback", {"plan_name": "p.json", "request_id": f"r{r}", "actions": [{"name": "a", "metrics": {"m": rng.random()}}]})
                    ctx.require(got["status"] == 200, "takes-feedback", f"{got}")
                    shifted += 1
                    s.call("trace")
            s.call("close", service=svc)


def malformed(ctx, s):
    rng = ctx.sub("malformed")
    kinds = ["missing", "self", "cycle", "whole-cycle", "duplicate", "named-as-constant", "named-input", "throws", "throws", "throws", "wrong-output",
             "unknown-operator", "no-operators"]
    for i in range(ctx.n(52, 300)):
        kind = kinds[i % len(kinds)]
        ops, constants = random_plan(rng, 8)
        while len(ops) < 3:
            ops, constants = random_plan(rng, 8)
        names = [o["name"] for o in ops]
        victim = rng.choice(ops)
        failed = []
        if kind == "missing":
            victim["input_dep_map"]["gone"] = "nobody"
        elif kind == "self":
            victim["input_dep_map"]["me"] = victim["name"]
        elif kind == "cycle":
            a, b = rng.sample(ops, 2)
            a["input_dep_map"]["x"], b["input_dep_map"]["y"] = b["name"], a["name"]
        elif kind == "whole-cycle":
            for a, b in zip(ops, ops[1:] + ops[:1]):
                a["input_dep_map"]["x"] = b["name"]
        elif kind == "duplicate":
            ops.insert(rng.randrange(len(ops)), {"name": victim["name"], "op_name": "Trace", "input_dep_map": {"x": rng.choice(names)}})
        elif kind == "named-as-constant":
            constants[victim["name"]] = 3
        elif kind == "named-input":
            old, victim["name"] = victim["name"], "input"
            for o in ops:
                o["input_dep_map"] = {k: "input" if v == old else v for k, v in o["input_dep_map"].items()}
        elif kind == "throws":
            constants["why"] = "told to"
            for o in rng.sample(ops, rng.randint(1, 2)):
                o["input_dep_map"]["fail"] = "why"
                failed.append(o["name"])
        elif kind == "wrong-output":
            ops[-1]["op_name"] = "TraceScores"
        elif kind == "unknown-operator":
            victim["op_name"] = "Nothing"
        elif kind == "no-operators":
            ops = []
        with ctx.case("malformed", (kind, [(o["name"], sorted(o["input_dep_map"].items())) for o in ops])):
            s.call("control", threads=rng.choice([1, 2, 8]), dawdle_us=rng.choice([0, 200]), seed=rng.getrandbits(30))
            svc = s.fresh()
            good_ops, good_constants = random_plan(rng, 4)
            s.call("plan", service=svc, name="good", config=config(good_ops, good_constants))
            try:
                s.call("plan", service=svc, name="bad", config=config(ops, constants))
            except native.Native.Refused:
                ctx.expect(kind not in ("throws", "wrong-output"), "plan-refused-too-early", f"{kind} plan was not taken")
            else:
                ctx.expect(kind not in ("unknown-operator", "no-operators"), "refuses-malformed-plan", f"a plan with {kind} was taken")
            s.call("trace")
            got = s.post(svc, "/api/request", {"request_id": "r", "plan_name": "bad", "actions": {"names": ["a"]}, "input": constant(1.0)})
            ctx.expect(got["status"] != 200 and got["written"] == 1, "refuses-malformed-plan", f"a request to a plan with {kind} was answered {got}")
            ctx.saw("refused")
            events = s.call("trace")["events"]
            if kind == "throws":
                log = check_run(ctx, ops, constants, constant(1.0), events, "bad", failed)
                ctx.saw("failed_operators", sum(len(log[f]["fail"]) for f in failed))
                after = set(failed)
                for _ in ops:
                    after |= {o["name"] for o in ops if set(o["input_dep_map"].values()) & after}
                ran = [n for n in after - set(failed) if log[n]["start"]]
                ctx.expect(not ran, "after-its-inputs", f"{ran} ran although an operator they depend on failed")
            # nothing of the refused request is left: its feedback joins nothing, and the service goes on
            s.post(svc, "/api/feedback", {"plan_name": "good", "request_id": "r", "actions": []})
            ctx.expect(s.call("logged", service=svc) == [], "refused-request-is-not-logged", "a decision that was refused was logged")
            s.call("trace")
            got = s.post(svc, "/api/request", {"request_id": "q", "plan_name": "good", "actions": {"names": ["a"]}, "input": constant(2)})
            ctx.require(got["status"] == 200, "serves-after-refusal", f"after a refused request: {got}")
            check_run(ctx, good_ops, good_constants, constant(2), s.call("trace")["events"], "good")
            ctx.saw("served_after_refusal")
            s.call("close", service=svc)
    good = {"request_id": "q", "plan_name": "good", "actions": {"names": ["a"]}}
    bodies = ["", "{", "[]", "3", "null", {}, {**good, "plan_name": "nobody"}, {**good, "plan_name": 3}, {"plan_name": "good"}, {**good, "actions": ["a"]},
              {**good, "actions": {}}, {**good, "input": {"strange_value": 1}}, {**good, "input": {"int_value": "x"}}, {**good, "context_features": {"a": "b"}},
              {**good, "actions": {"names": [1]}}]
    for body in bodies:
        with ctx.case("malformed request", body):
            svc = s.fresh()
            ops, constants = random_plan(rng, 4)
            s.call("plan", service=svc, name="good", config=config(ops, constants))
            got = s.post(svc, "/api/request", body)
            ctx.expect(got["status"] == 400 and got["written"] == 1, "refuses-malformed-request", f"{body!r} was answered {got}")
            ctx.saw("refused")
            got = s.post(svc, "/api/request", good)
            ctx.expect(got["status"] == 200, "serves-after-refusal", f"{got}")
            s.call("close", service=svc)
    # a plan that is replaced is served in its new form only
    for i in range(ctx.n(4)):
        with ctx.case("replaced plan", i):
            svc = s.fresh()
            for _ in range(3):
                ops, constants = random_plan(rng, 6)
                s.call("plan", service=svc, name="good", config=config(ops, constants))
                s.call("trace")
                got = s.post(svc, "/api/request", {**good, "input": constant(0.5)})
                ctx.require(got["status"] == 200, "serves-valid-plan", f"{got}")
                check_run(ctx, ops, constants, constant(0.5), s.call("trace")["events"], "good")
            s.call("close", service=svc)


def run(ctx):
    with ctx.part("build"):
        exe = native.build_all(["tsan", "asan"], ".")
    for variant, parts in (("tsan", [plans, stateful]), ("asan", [malformed, plans])):
        s = native.Session(exe[variant])
        for f in parts:
            with ctx.part(f.__name__ + "-" + variant):
                with ctx.case("part", (f.__name__, variant), trivial=True):
                    f(ctx, s)
        with ctx.case("end", "the driver ends without a sanitizer report", trivial=True):
            s.close()
