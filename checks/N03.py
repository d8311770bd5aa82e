"""N03: every decision is joined with its feedback exactly once; records survive the wire; rewards are the declared aggregate."""
import vf.quiet  # noqa
import collections
import json
import os
import re
import string

from checks.N02 import VALUES, config
from vf import native
from vf.native import constant

RULE = ("Random histories of requests and feedbacks (ids given or assigned, reused after joining, feedback early, repeated, unknown, malformed or "
        "with rewards that cannot be computed, requests that are refused) go through the HTTP handlers of the native service (ASan+UBSan); a map "
        "model of outstanding decisions predicts every joined record, the operators that get feedback, the log file and the aggregated reward. "
        "Records of every wire type make round trips. Non-trivial = at least one joined decision.")
REQUIRED = {"decisions": 400, "joined": 200, "ignored_feedbacks": 80, "refused_feedbacks": 60, "rewards": 400, "negative_maxima": 10,
            "round_trips": 150, "direct_joins": 30, "ids_assigned": 200, "log_lines": 150, "operator_feedbacks": 300}
ASSUMPTIONS = ["reward functions are evaluated by a stand-in for exprtk that reads the arithmetic subset of its language",
               "requests arrive one at a time; a request that repeats the id of an undecided one is outside the property"]

UUID4 = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$")
NAMES = ["a", "b b", "é", "Ω/1", "", "\"q\"", "\\n\n", "日本"]
REWARDS = {
    "": lambda m: 0.0,
    "score": lambda m: m["score"],
    "score * 2 - bias": lambda m: m["score"] * 2 - m["bias"],
    "-score": lambda m: -m["score"],
    "max(score, bias) / 4": lambda m: max(m["score"], m["bias"]) / 4,
    "score / bias": lambda m: m["score"] / m["bias"],
}


def number(rng):
    return rng.choice([0.0, 1.0, -1.5, 1e-300, 1e300, 0.1, rng.gauss(0, 1), rng.gauss(0, 1) * 10 ** rng.uniform(-20, 20)])


def text(rng):
    return rng.choice(NAMES) if rng.random() < 0.5 else "".join(rng.choice(string.printable[:95] + "äß語") for _ in range(rng.randint(0, 12)))


def doubles(rng, n=4):
    return {text(rng): number(rng) for _ in range(rng.randint(0, n))}


def actions(rng):
    a = {"names": [text(rng) for _ in range(rng.randint(0, 4))]}
    if rng.random() < 0.6:
        a["features"] = {text(rng): doubles(rng) for _ in range(rng.randint(0, 3))}
    return a


def a_request(rng, plan=None):
    r = {"plan_name": plan or text(rng), "actions": actions(rng)}
    if rng.random() < 0.7:
        r["context_features"] = doubles(rng)
    if rng.random() < 0.7:
        r["input"] = constant(rng.choice(VALUES))
    return r


def normal_request(r):
    """The request as the service understands it, with its defaults."""
    return {"request_id": r.get("request_id", ""), "plan_name": r["plan_name"], "meta_data": r.get("meta_data"),
            "actions": {"names": r["actions"]["names"], "features": r["actions"].get("features", {})},
            "context_features": r.get("context_features", {}), "input": r.get("input", {"string_value": ""})}


def metrics(rng):
    return {"score": round(rng.gauss(0, 2), 4), "bias": rng.choice([0.5, -2.0, 4.0]), **({"extra": 1.0} if rng.random() < 0.3 else {})}


def normal_feedback(f, function, aggregator):
    acts, rewards = [], []
    for a in f["actions"]:
        rewards.append(REWARDS[function](a["metrics"]))
        acts.append({"name": a["name"], "metrics": a["metrics"], "computed_reward": rewards[-1]})
    total = sum(rewards) if aggregator == "sum" else max(rewards, default=0.0)
    return {"plan_name": f["plan_name"], "request_id": f["request_id"], "actions": acts, "computed_reward": total}, rewards


def near(got, want):
    """Equal records; numbers equal up to rounding of the arithmetic."""
    if isinstance(want, dict) and isinstance(got, dict):
        return set(got) == set(want) and all(near(got[k], want[k]) for k in want)
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(near(a, b) for a, b in zip(got, want))
    if isinstance(want, (int, float)) and isinstance(got, (int, float)) and not isinstance(want, bool):
        return abs(got - want) <= 1e-9 * max(1.0, abs(want))
    return got == want


def histories(ctx, s):
    rng = ctx.sub("histories")
    all_ids = set()
    for i in range(ctx.n(40, 240)):
        plans = {}
        for k in range(rng.randint(1, 3)):
            ops = [{"name": f"op{j}", "op_name": rng.choice(["Trace", "TraceScores"]), "input_dep_map": {"x": rng.choice(["input", "c"])}} for j in range(rng.randint(0, 2))]
            ops.append({"name": "rank", "op_name": "TraceRanked", "input_dep_map": {f"i{j}": o["name"] for j, o in enumerate(ops)}})
            plans[f"plan{k}"] = (ops, {"c": rng.choice(VALUES)}, rng.choice(list(REWARDS)), rng.choice(["sum", "max"]))
        with_file = rng.random() < 0.7
        path = os.path.join(os.getcwd(), f"logs{i}", "joined.log")
        with ctx.case("history", (i, [(len(p[0]), p[2], p[3]) for p in plans.values()], with_file)):
            svc = s.fresh(**({"log_path": path} if with_file else {}))
            for name, (ops, constants, function, aggregator) in plans.items():
                s.call("plan", service=svc, name=name, config=config(ops, constants, function, aggregator))
            bad = config([{"name": "rank", "op_name": "TraceRanked", "input_dep_map": {"fail": "c"}}], {"c": "always"})
            s.call("plan", service=svc, name="broken", config=bad)
            s.call("plan", service=svc, name="no aggregate", config={**config([{"name": "rank", "op_name": "TraceRanked", "input_dep_map": {}}], {}), "reward_aggregator": None})
            outstanding, joined, model = {}, [], []
            fresh_id = 0
            s.call("trace")
            for step in range(rng.randint(40, 90)):
                kind = rng.choices(["request", "feedback", "repeat", "unknown", "bad reward", "malformed", "refused request"], [9, 7, 2, 1, 2, 1, 1])[0]
                if kind == "request":
                    plan = rng.choice(list(plans))
                    r = a_request(rng, plan)
                    mode = rng.random()
                    if mode < 0.5:
                        r["request_id"] = f"id {fresh_id} {text(rng)}"
                        fresh_id += 1
                    elif mode < 0.6 and joined:
                        again = rng.choice(joined)
                        if again not in outstanding:
                            r["request_id"] = again
                    elif mode < 0.7:
                        r["request_id"] = ""
                    got = s.post(svc, "/api/request", r)
                    ctx.require(got["status"] == 200 and got["written"] == 1, "takes-request", f"{got}")
                    answer = json.loads(got["body"])
                    rid = answer["request_id"]
                    if r.get("request_id"):
                        ctx.require(rid == r["request_id"], "keeps-request-id", f"{r['request_id']!r} became {rid!r}")
                    else:
                        ctx.expect(bool(UUID4.match(rid)) and rid not in all_ids, "assigns-unique-id", f"assigned {rid!r}")
                        ctx.saw("ids_assigned")
                    all_ids.add(rid)
                    ctx.expect(answer["plan_name"] == plan and answer["duration"] >= 0, "answer-is-for-the-request", f"{answer}")
                    ran = {e["name"]: e["data"] for e in s.call("trace")["events"] if e["what"] == "end"}
                    ops, constants, _, _ = plans[plan]
                    want = normal_request({**r, "request_id": rid})
                    outputs = {**ran, "input": want["input"], **{k: constant(v) for k, v in constants.items()}}
                    outstanding[rid] = (plan, want, answer, outputs)
                    ctx.saw("decisions")
                elif kind == "refused request":
                    rid = f"refused {step}"
                    got = s.post(svc, "/api/request", {"plan_name": "broken", "request_id": rid, "actions": {"names": ["a"]}})
                    ctx.expect(got["status"] == 400, "refuses-request", f"{got}")
                    s.call("trace")
                    got = s.post(svc, "/api/feedback", {"plan_name": "plan0", "request_id": rid, "actions": []})
                    ctx.saw("ignored_feedbacks")
                else:
                    known = {"feedback": list(outstanding), "repeat": [j for j in joined if j not in outstanding], "unknown": ["never asked"],
                             "bad reward": list(outstanding), "malformed": list(outstanding)}[kind]
                    if not known:
                        continue
                    rid = rng.choice(known)
                    plan = outstanding[rid][0] if rid in outstanding else rng.choice(list(plans))
                    ops, constants, function, aggregator = plans[plan]
                    f = {"plan_name": plan, "request_id": rid,
                         "actions": [{"name": text(rng), "metrics": metrics(rng)} for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
                    if rng.random() < 0.3:  # what the client says of the reward does not count
                        f["computed_reward"] = 1e6
                        for a in f["actions"]:
                            a["computed_reward"] = -1e6
                    refuse = False
                    if kind == "malformed":
                        drop = rng.choice(["plan_name", "request_id", "actions", "metrics", "text", "plan", "aggregate"])
                        f["actions"] = f["actions"] or [{"name": "x", "metrics": metrics(rng)}]
                        if drop == "metrics":
                            del f["actions"][0]["metrics"]
                        elif drop == "plan":
                            f["plan_name"] = "nobody"
                        elif drop == "aggregate":
                            f["plan_name"] = "no aggregate"
                        elif drop != "text":
                            del f[drop]
                        refuse = True
                    elif kind == "bad reward" and function:
                        f["actions"] = f["actions"] or [{"name": "x", "metrics": metrics(rng)}]
                        if function == "score / bias" and rng.random() < 0.5:
                            f["actions"][-1]["metrics"]["bias"] = 0.0
                        else:
                            del f["actions"][-1]["metrics"]["score"]
                        refuse = True
                    got = s.post(svc, "/api/feedback", "{" if kind == "malformed" and drop == "text" else f)
                    fed = s.call("trace")["events"]
                    if refuse:
                        ctx.expect(got["status"] == 400, "refuses-feedback", f"{kind}: {f} was answered {got}")
                        ctx.expect(not fed, "refused-feedback-reaches-nobody", f"{fed}")
                        ctx.saw("refused_feedbacks")
                    else:
                        ctx.require(got["status"] == 200 and json.loads(got["body"]) == {"status": "OK"}, "takes-feedback", f"{f} was answered {got}")
                        want, rewards = normal_feedback(f, function, aggregator)
                        if rid in outstanding:
                            _, request, answer, outputs = outstanding.pop(rid)
                            model.append({"decision_request": request, "decision_response": answer, "operator_outputs": outputs, "feedback": want})
                            joined.append(rid)
                            ctx.saw("joined")
                            ctx.saw("rewards", 1 + len(rewards))
                            if aggregator == "max" and rewards and max(rewards) < 0:
                                ctx.saw("negative_maxima")
                            names = collections.Counter(e["name"] for e in fed)
                            ctx.require(names == {o["name"]: 1 for o in ops} and all(e["what"] == "feedback" for e in fed), "operators-fed-once", f"{names}")
                            for e in fed:
                                ctx.expect(near(e["data"]["feedback"], want), "operators-fed-the-feedback", f"{e['name']} was fed {e['data']['feedback']}, expected {want}")
                                ctx.saw("operator_feedbacks")
                        else:
                            ctx.expect(not fed, "stray-feedback-reaches-nobody", f"{fed}")
                            ctx.saw("ignored_feedbacks")
                if rng.random() < 0.25:
                    got = s.call("logged", service=svc)
                    ctx.require(len(got) == len(model), "joined-exactly-once", f"{len(got)} records logged, {len(model)} decisions were fed back")
            got = s.call("logged", service=svc)
            ctx.require(len(got) == len(model), "joined-exactly-once", f"{len(got)} records logged, {len(model)} decisions were fed back")
            for g, w in zip(got, model):
                for part in ("decision_request", "decision_response", "operator_outputs", "feedback"):
                    ctx.require(near(g[part], w[part]), "joined-record", f"{part} was logged as {g[part]}, expected {w[part]}")
            s.call("close", service=svc)
            if with_file:
                lines = [json.loads(ln) for ln in open(path, encoding="utf-8")]
                ctx.expect(lines == got, "log-file", f"{len(lines)} lines in the log file, {len(got)} records in memory, or they differ")
                ctx.saw("log_lines", len(lines))
                # a service restarted on the same file appends
                svc = s.fresh(log_path=path)
                s.call("plan", service=svc, name="p", config=config([{"name": "rank", "op_name": "TraceRanked", "input_dep_map": {}}], {}, "score", "max"))
                s.post(svc, "/api/request", {"plan_name": "p", "request_id": "late", "actions": {"names": ["a"]}})
                if rng.random() < 0.5 and outstanding:
                    s.post(svc, "/api/feedback", {"plan_name": "p", "request_id": next(iter(outstanding)), "actions": []})
                s.post(svc, "/api/feedback", {"plan_name": "p", "request_id": "late", "actions": [{"name": "a", "metrics": {"score": -0.25}}]})
                s.call("close", service=svc)
                after = [json.loads(ln) for ln in open(path, encoding="utf-8")]
                ctx.expect(after[:-1] == lines and after[-1]["decision_request"]["request_id"] == "late" and after[-1]["feedback"]["computed_reward"] == -0.25,
                           "log-file-appends", f"{len(lines)} lines, then {len(after)}")
            s.call("trace")


def direct(ctx, s):
    """The joiner fed with serialised halves, as a log pipeline does, in either order."""
    rng = ctx.sub("direct")
    for i in range(ctx.n(40)):
        with ctx.case("join", i):
            svc = s.fresh()
            s.call("plan", service=svc, name="p", config=config([{"name": "rank", "op_name": "TraceRanked", "input_dep_map": {"x": "input"}}], {}, "score", "sum"))
            request = normal_request({**a_request(rng, "p"), "request_id": f"r{i}"})
            response = {"request_id": f"r{i}", "plan_name": "p", "actions": [{"name": text(rng), "propensity": rng.random()}], "duration": rng.randint(0, 99)}
            outputs = {"rank": constant(response["actions"]), "input": request["input"]}
            decision = {"decision_request": request, "decision_response": response, "operator_outputs": outputs, "feedback": None}
            said = {"plan_name": "p", "request_id": f"r{i}", "computed_reward": number(rng),
                    "actions": [{"name": text(rng), "metrics": doubles(rng), "computed_reward": rng.choice([None, number(rng)])} for _ in range(rng.randint(0, 3))]}
            feedback = {"decision_request": None, "decision_response": None, "operator_outputs": None, "feedback": said}
            halves = [json.dumps(decision), json.dumps(feedback)]
            if i % 2:
                halves.reverse()
            s.call("trace")
            got = s.call("join", service=svc, records=halves)
            ctx.expect(got == {**decision, "feedback": said}, "joins-either-order", f"halves in order {'fd' if i % 2 else 'df'} joined to {got}")
            fed = s.call("trace")["events"]
            ctx.expect([(e["name"], e["what"]) for e in fed] == [("rank", "feedback")] and fed[0]["data"]["inputs"] == {"x": request["input"]}
                       and fed[0]["data"]["output"] == outputs["rank"], "operators-fed-once", f"{fed}")
            ctx.expect(s.call("logged", service=svc) == [got], "joined-exactly-once", "the joined record was not logged once")
            ctx.saw("direct_joins")
            for bad in ([], halves[:1], halves + halves[:1], [json.dumps(decision)] * 2, [json.dumps(feedback)] * 2, ["{", halves[0]]):
                ctx.expect(s.refused("join", service=svc, records=bad), "refuses-wrong-halves", f"{len(bad)} halves were joined: {bad}")
            ctx.expect(len(s.call("logged", service=svc)) == 1 and not s.call("trace")["events"], "joined-exactly-once", "refused halves were logged")
            s.call("close", service=svc)


def wire(ctx, s):
    rng = ctx.sub("wire")
    for i in range(ctx.n(60)):
        request = {**a_request(rng), "request_id": text(rng)}
        response = {"request_id": text(rng), "plan_name": text(rng), "duration": rng.choice([0, 5, 2 ** 62]),
                    "actions": [{"name": text(rng), "propensity": number(rng)} for _ in range(rng.randint(0, 4))]}
        action = {"name": text(rng), "metrics": doubles(rng)}
        if rng.random() < 0.6:
            action["computed_reward"] = rng.choice([None, number(rng)])
        feedback = {"plan_name": text(rng), "request_id": text(rng), "actions": [action] * rng.randint(0, 3)}
        if rng.random() < 0.5:
            feedback["computed_reward"] = number(rng)
        full = {**action, "computed_reward": action.get("computed_reward")}
        want = {"DecisionRequest": normal_request(request), "DecisionResponse": response, "ActionFeedback": full,
                "Feedback": {**feedback, "actions": [full] * len(feedback["actions"])}}
        given = {"DecisionRequest": request, "DecisionResponse": response, "ActionFeedback": action, "Feedback": feedback}
        parts = {"decision_request": normal_request(request), "decision_response": response, "feedback": want["Feedback"],
                 "operator_outputs": {text(rng): constant(rng.choice(VALUES)) for _ in range(rng.randint(0, 5))}}
        given["DecisionWithFeedback"] = want["DecisionWithFeedback"] = {k: (v if rng.random() < 0.7 else None) for k, v in parts.items()}
        for kind in given:
            with ctx.case("wire", (kind, given[kind])):
                got = s.call("roundtrip", type=kind, value=given[kind])
                ctx.saw("round_trips")
                ctx.expect(got == want[kind], "round-trip", f"{kind} {given[kind]} came back as {got}")
    empties = [{"list_string_value": []}, {"list_int_value": []}, {"list_double_value": []}, {"map_string_value": {}}, {"map_int_value": {}},
               {"map_double_value": {}}, {"ranked_action_list": []}, {"map_map_double_value": {}}, {"map_map_double_value": {"a": {}}},
               {"int_value": 2 ** 63 - 1}, {"int_value": -2 ** 63}, {"list_int_value": [2 ** 53 + 1, -2 ** 63]}, {"map_int_value": {"é": 2 ** 53 + 1}},
               {"double_value": 5e-324}, {"double_value": 1.7976931348623157e308}, {"double_value": 0.1 + 0.2}]
    for v in [constant(v) for v in VALUES] + empties + [constant(number(rng)) for _ in range(10)]:
        with ctx.case("wire", v):
            got = s.call("roundtrip", type="ConstantValue", value=v)
            ctx.saw("round_trips")
            ctx.expect(got == v and all(type(got[k]) is type(v[k]) for k in v), "round-trip", f"{v} came back as {got}")
    for bad in ({}, {"nothing": 1}, [], "x"):
        with ctx.case("wire refuses", bad):
            ctx.expect(s.refused("roundtrip", type="ConstantValue", value=bad), "round-trip-refuses", f"{bad} was read")
    with ctx.case("ids", "uuids"):
        ids = s.call("uuids", count=2000)
        ctx.expect(len(set(ids)) == len(ids) and all(UUID4.match(x) for x in ids), "assigns-unique-id", "ids repeat or are not version 4 UUIDs")


def run(ctx):
    s = native.Session(native.build_all(["asan"], ".")["asan"])
    for f in (histories, direct, wire):
        with ctx.part(f.__name__):
            with ctx.case("part", f.__name__, trivial=True):
                f(ctx, s)
    with ctx.case("end", "the driver ends without a sanitizer report", trivial=True):
        s.close()
