"""N04: serving configuration written in Python means the same natively."""
import vf.quiet  # noqa
import json
import math
import os
import subprocess
import sys

from checks.N01 import softmax
from vf import native
from vf.native import constant

RULE = ("Random operator trees (shared nodes, every operator offered, values of every type, ints where floats are declared) are built by the "
        "Python builder in its own process, exported directly or through the command line, and read by the native service (ASan+UBSan); the "
        "native view of each plan is compared with the tree it was written from, and deterministic plans are run on requests and feedback "
        "against a Python evaluation of the tree. Non-trivial = at least two operators.")
REQUIRED = {"plans_described": 120, "operators_compared": 300, "constants_compared": 200, "served": 60, "rewards": 60, "exported_files": 12,
            "refused_in_python": 20, "encoded": 150, "operators_offered": 9}
ASSUMPTIONS = ["equations are evaluated by a stand-in for exprtk that reads the arithmetic subset of its language"]

# what each operator offered to Python takes: name -> (declared kind)
OFFERED = {
    "ActionValueScoring": {"model_id": "int", "snapshot_id": "int"},
    "EpsilonGreedyRanker": {"epsilon": "float", "values": "map", "seed": "int?"},
    "Expression": {"equation": "str", "...": "map"},
    "Frechet": {"values": "map", "rho": "float", "gamma": "float", "seed": "int?"},
    "InputFromRequest": {},
    "PropensityFit": {"input": "map", "targets": "map"},
    "Softmax": {"temperature": "float", "values": "map"},
    "SoftmaxRanker": {"temperature": "float", "values": "map", "seed": "int?"},
    "UCB": {"method": "str", "batch_size": "int=1"},
}
NATIVE_NAME = {"UCB": "Ucb"}
RANKED = {"EpsilonGreedyRanker", "SoftmaxRanker", "UCB"}


class Worker:
    """The Python side, with only serving/ on its path."""

    def __init__(self):
        env = {**os.environ, "PYTHONPATH": native.SERVING, "HOME": os.getcwd(), "PYTHONDONTWRITEBYTECODE": "1"}
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(native.ROOT, "native", "plan_worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env)

    def call(self, cmd, **fields):
        self.p.stdin.write(json.dumps({"cmd": cmd, **fields}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the Python side ended")
        answer = json.loads(line)
        if "error" in answer:
            raise RuntimeError("in Python: " + answer["error"])
        return answer["ok"]

    def refuses(self, spec):
        try:
            self.call("build", spec=spec)
        except RuntimeError as e:
            return str(e).startswith("in Python: ")
        return False

    def close(self):
        self.p.stdin.close()
        self.p.wait(30)


def scores(rng, n=None, kind=None):
    kind = kind or rng.choice(["float", "int", "mixed"])
    n = n or rng.randint(1, 5)
    draw = {"float": lambda i: round(rng.gauss(0, 3), 3) + 0.0001 * i, "int": lambda i: rng.randint(-50, 50),
            "mixed": lambda i: rng.randint(-9, 9) if i % 2 == 0 else rng.gauss(0, 4)}[kind]
    return {f"act {i}" if rng.random() < 0.2 else f"a{i}": draw(i) for i in range(n)}


def random_tree(rng, most):
    nodes = []
    for i in range(rng.randint(1, most)):
        op = rng.choice(sorted(OFFERED))
        args = {}

        def put(name, kind):
            if kind in ("int?", "int=1") and rng.random() < 0.4:
                return
            if kind == "map" and nodes and rng.random() < 0.75:
                args[name] = {"node": rng.randrange(len(nodes))}
            elif kind != "map" and nodes and rng.random() < 0.08:
                args[name] = {"node": rng.randrange(len(nodes))}
            else:
                args[name] = {"value": {"int": lambda: rng.randint(0, 10 ** 9), "int?": lambda: rng.choice([None, rng.randint(0, 99)]), "int=1": lambda: rng.randint(1, 9),
                                        "float": lambda: rng.choice([rng.randint(1, 5), rng.random() * 3, 0.1, 1e-9]),
                                        "str": lambda: rng.choice(["UCB1", "x + 1", "é", ""]), "map": lambda: scores(rng)}[kind]()}

        for name, kind in OFFERED[op].items():
            if name == "...":
                for k in range(rng.randint(1, 3)):
                    put(f"x{k}", kind)
            else:
                put(name, kind)
        nodes.append({"op": op, "args": args})
    spec = {"nodes": nodes, "root": len(nodes) - 1, "num": rng.randint(1, 9), "reward": rng.choice(["", "m * 2"]),
            "aggregator": rng.choice(["DRA_SUM", "DRA_MAX"])}
    for k in ("num", "reward", "aggregator"):
        if rng.random() < 0.3:
            del spec[k]
    return spec


def declared(kind, v):
    """The constant the service must see."""
    if kind == "float":
        return {"double_value": float(v)}
    if kind == "map":
        return {"map_double_value": {k: float(x) for k, x in v.items()}}
    return constant(v)


def compare(ctx, spec, seen):
    """The native view of the plan against the tree it was written from."""
    inputs = {o["name"]: o["inputs"] for o in seen["operators"]}
    ctx.require(len(inputs) == len(seen["operators"]), "operator-names", f"operators share names: {seen['operators']}")
    where = {}

    def walk(i, name):
        if i in where:
            ctx.require(where[i] == name, "shared-operator", f"node {i}, used twice, became both {where[i]} and {name}")
            return
        where[i] = name
        node = spec["nodes"][i]
        kinds = OFFERED[node["op"]]
        ctx.require(name in inputs, "operator-inputs", f"{name} is no operator; operators are {sorted(inputs)}")
        want_type = NATIVE_NAME.get(node["op"], node["op"])
        ctx.require(seen["types"][name] == want_type, "operator-type", f"{node['op']} became {seen['types'][name]}")
        args = {k: a for k, a in node["args"].items() if a.get("value", 0) is not None}
        for k, kind in kinds.items():
            if kind == "int=1" and k not in node["args"]:
                args[k] = {"value": 1}
        ctx.require(set(inputs[name]) == set(args), "operator-inputs", f"{node['op']} takes {sorted(inputs[name])}, was given {sorted(args)}")
        ctx.saw("operators_compared")
        for k, a in args.items():
            source = inputs[name][k]
            if "node" in a:
                walk(a["node"], source)
            else:
                want = declared(kinds.get(k, kinds.get("...")), a["value"])
                ctx.require(source in seen["constants"], "operator-inputs", f"input {k} of {name} is {source}, which is no constant")
                got = seen["constants"][source]
                ctx.expect(got == want, "constant", f"{k}={a['value']!r} of {node['op']} arrived as {got}, expected {want}")
                ctx.saw("constants_compared")

    walk(spec["root"], seen["output"])
    ctx.expect(len(inputs) == len(where), "no-other-operators", f"{len(inputs)} operators for {len(where)} nodes")
    ctx.expect(len(set(where.values())) == len(where), "operator-names", f"nodes share operators: {where}")
    ctx.expect(seen["num_actions_to_choose"] == spec.get("num", 1), "settings", f"num_actions_to_choose {seen['num_actions_to_choose']} for {spec.get('num', 1)}")
    ctx.expect(seen["reward_function"] == spec.get("reward", ""), "settings", f"reward function {seen['reward_function']!r}")
    ctx.expect(seen["reward_aggregator"] == {"DRA_SUM": 1, "DRA_MAX": 2}[spec.get("aggregator", "DRA_MAX")], "settings",
               f"aggregator {spec.get('aggregator', 'default DRA_MAX')} arrived as {seen['reward_aggregator']}")


def offered(ctx, s, w):
    with ctx.case("offered", "operators"):
        names = w.call("offered")
        svc = s.fresh()
        ctx.saw("operators_offered", len(names))
        for n in OFFERED:
            ctx.expect(n in names, "offered", f"{n} is no longer offered to Python")
        example = {"float": 0.5, "int": 3, "str": "UCB1", "map": {"a": 1.0}}
        for n in names:
            kinds = OFFERED.get(n)
            if kinds is None:
                continue
            args = {k: {"value": example[kind.rstrip("?=1")]} for k, kind in kinds.items() if k != "..."}
            spec = {"nodes": [{"op": n, "args": args}], "root": 0}
            plan = w.call("build", spec=spec)["first"]
            s.call("plan", service=svc, name=n, config=plan)
            compare(ctx, spec, s.call("describe", service=svc, name=n))


def described(ctx, s, w):
    rng = ctx.sub("described")
    for i in range(ctx.n(320)):
        spec = random_tree(rng, rng.choice([1, 4, 9]))
        with ctx.case("tree", spec, trivial=len(spec["nodes"]) < 2):
            svc = s.fresh()
            built = w.call("build", spec=spec, between=random_tree(rng, 4) if rng.random() < 0.5 else None)
            ctx.expect(built["first"] == built["again"], "build-is-repeatable", "building the plan again gave another plan")
            ctx.expect(built["first"] == built["other"], "build-is-repeatable", "a second builder on the same operators gave another plan")
            for which in ("first", "again", "other"):
                s.call("plan", service=svc, name="p", config=built[which])
                compare(ctx, spec, s.call("describe", service=svc, name="p"))
            ctx.saw("plans_described")
            s.call("close", service=svc)
    # constants of every type an operator could be given
    values = ["text", "", 0, -5, 2 ** 53 + 1, 0.1, -1e-300, ["a"], ["a", ""], [1, 2], [0, -7], [1.5], [1, 2.5], [2.5, 1], {"a": "b"}, {"a": "b", "c": ""}]
    for v in values + [[rng.choice([rng.randint(-5, 5), rng.random()]) for _ in range(rng.randint(2, 5))] for _ in range(10)]:
        with ctx.case("constant", v):
            svc = s.fresh()
            spec = {"nodes": [{"op": "Expression", "args": {"equation": {"value": "1"}, "x": {"value": v}}}], "root": 0}
            s.call("plan", service=svc, name="p", config=w.call("build", spec=spec)["first"])
            seen = s.call("describe", service=svc, name="p")
            got = seen["constants"][seen["operators"][0]["inputs"]["x"]]
            if isinstance(v, list) and any(isinstance(x, float) for x in v):
                want = [{"list_double_value": [float(x) for x in v]}]
            else:  # a lone int may as well be given as a double
                want = [constant(v)]
            ctx.expect(got in want, "constant", f"{v!r} arrived as {got}")
            ctx.saw("constants_compared")
            s.call("close", service=svc)


def refusals(ctx, s, w):
    one = {"op": "Softmax", "args": {"temperature": {"value": 1.0}, "values": {"value": {"a": 1.0}}}}
    x = lambda v: {"nodes": [{"op": "Expression", "args": {"equation": {"value": "1"}, "x": {"value": v}}}], "root": 0}  # noqa
    bad = {"no root": {"nodes": [one]}, "root is a value": {"nodes": [], "root_value": 3}, "missing argument": {"nodes": [{"op": "Softmax", "args": {}}], "root": 0},
           "unknown argument": {"nodes": [{"op": "Softmax", "args": {**one["args"], "heat": {"value": 1}}}], "root": 0},
           "unknown operator": {"nodes": [{"op": "Nothing", "args": {}}], "root": 0}, "empty list": x([]), "list of lists": x([[1]]),
           "list of text and numbers": x(["a", 1]), "list of numbers and text": x([1, "a"]), "map of text and numbers": x({"a": "b", "c": 1}),
           "map of numbers and text": x({"a": 1, "c": "d"}), "map of lists": x({"a": [1]}), "empty map": x({}), "unknown aggregator": {"nodes": [one], "root": 0, "aggregator": "DRA_MEAN"}}
    for what, spec in bad.items():
        with ctx.case("refusal", what):
            ctx.expect(w.refuses(spec), "refuses-what-cannot-be-said", f"{what} was exported")
            ctx.saw("refused_in_python")


def written(t, v):
    """What the configuration language writes for a value of a declared type."""
    if v is None:
        return None
    if t == "const":
        return constant(v["of"] if isinstance(v, dict) and "sub" in v else v)
    if isinstance(t, str):
        return v["of"] if isinstance(v, dict) and "sub" in v else v
    kind, *of = t
    if kind == "opt":
        return written(of[0], v)
    if kind in ("list", "tuple*"):
        return [written(of[0], x) for x in v]
    if kind == "dict":
        return {k: written(of[0], x) for k, x in v.items()}
    if kind == "tuple":
        return [written(x, y) for x, y in zip(of, v)]
    if kind == "enum":
        return of[0][v]
    return {k: written(x, v[k]) for k, x in of[0].items()}


def random_typed(rng, depth, in_tuple=False):
    """A random type and a value of it."""
    kinds = ["str", "int", "float"] if in_tuple else ["str", "int", "float", "const"] + (["opt", "list", "dict", "tuple", "tuple*", "enum", "record"] if depth else [])
    kind = rng.choice(kinds)
    text, number, real = (lambda: rng.choice(["", "a", "é b", "0"])), (lambda: rng.randint(-5, 10 ** 9)), (lambda: round(rng.gauss(0, 3), 4) + 0.00001)
    draw = {"str": text, "int": number, "float": real}
    if kind in draw:
        return kind, draw[kind]()
    if kind == "const":
        c = rng.choice(["str", "int", "float", "text", "count", "share", "list", "map"])
        if c in draw:
            return kind, draw[c]()
        if c in ("text", "count", "share"):
            return kind, {"sub": c, "of": {"text": text, "count": number, "share": real}[c]()}
        f = draw[rng.choice(list(draw))]
        n = rng.randint(1, 3)
        return kind, [f() for _ in range(n)] if c == "list" else {f"k{i}": f() for i in range(n)}
    if kind == "enum":
        names = {f"N{i}": rng.choice([i, f"v{i}"]) for i in range(3)}
        return ["enum", names], rng.choice(sorted(names))
    if kind == "tuple":
        parts = [random_typed(rng, 0, True) for _ in range(rng.randint(1, 4))]
        return ["tuple"] + [t for t, _ in parts], [v for _, v in parts]
    if kind == "tuple*":
        t, _ = random_typed(rng, 0, True)
        return ["tuple*", t], [draw[t]() for _ in range(rng.randint(0, 4))]
    if kind == "record":
        fields = {f"f{i}": random_typed(rng, depth - 1) for i in range(rng.randint(1, 3))}
        return ["record", {k: t for k, (t, _) in fields.items()}], {k: v for k, (_, v) in fields.items()}
    t, v = random_typed(rng, 0)
    if kind == "opt":
        t, v = random_typed(rng, depth - 1)
        return ["opt", t], None if rng.random() < 0.4 else v
    if t == "const":
        t, v = "int", 3
    values = [v] + [draw[t]() for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.2:
        values = []
    return ([kind, t], values) if kind == "list" else ([kind, t], {f"k{i}": x for i, x in enumerate(values)})


def encoded(ctx, s, w):
    """Configurations of every declared shape are written as what they hold."""
    rng = ctx.sub("encoded")
    for i in range(ctx.n(300)):
        fields = {f"f{j}": random_typed(rng, 2) for j in range(rng.randint(1, 4))}
        types, values = {k: t for k, (t, _) in fields.items()}, {k: v for k, (_, v) in fields.items()}
        with ctx.case("encoded", (types, values)):
            got = w.call("encode", fields=types, value=values)
            want = written(["record", types], values)
            ctx.expect(got == want, "written-as-held", f"{values} of types {types} was written as {got}, expected {want}")
            ctx.saw("encoded")
    for t, v in ((["tuple", "int", "str"], [1]), (["tuple", "int", "str"], [1, "a", 2]), (["tuple", "int"], [1, 2]), (["tuple", "int"], []), (["tuple", "str", "str", "str"], ["a"]),
                 ("int", None), ("const", None), ("const", []), ("const", {}), (["list", "int"], [1, None])):
        with ctx.case("refused", (t, v)):
            try:
                got = w.call("encode", fields={"f": t}, value={"f": v})
                ctx.expect(False, "refuses-what-cannot-be-said", f"{v} was written for a field of type {t}: {got}")
            except RuntimeError:
                ctx.saw("refused_in_python")


def evaluate(spec, i, request_input, actions, model):
    node = spec["nodes"][i]
    arg = {k: evaluate(spec, a["node"], request_input, actions, model) if "node" in a else a["value"] for k, a in node["args"].items()}
    if node["op"] == "Softmax":
        return softmax(arg["values"], arg["temperature"])
    if node["op"] == "InputFromRequest":
        return request_input
    if node["op"] == "PropensityFit":  # never fed back here
        return dict(arg["input"])
    if node["op"] == "ActionValueScoring":
        return {a: arg["model_id"] * 100.0 + arg["snapshot_id"] + len(a) / 7 for a in actions}
    names = [k for k in arg if k != "equation"]
    return {a: float(eval(arg["equation"], {}, {n: arg[n][a] for n in names})) for a in arg[names[0]]}  # noqa: S307 (our own text)


def served(ctx, s, w):
    rng = ctx.sub("served")
    for i in range(ctx.n(200)):
        actions = [f"a{'b' * k}" for k in range(rng.randint(2, 5))]
        given = {a: rng.gauss(0, 2) for a in actions}
        nodes = []

        def source():
            if nodes and rng.random() < 0.7:
                return {"node": rng.randrange(len(nodes))}
            return {"value": {a: rng.choice([rng.randint(-9, 9), rng.gauss(0, 3)]) for a in actions}}

        for _ in range(rng.randint(1, 5)):
            op = rng.choice(["Softmax", "InputFromRequest", "PropensityFit", "ActionValueScoring", "Expression", "Expression"])
            if op == "Softmax":
                args = {"temperature": {"value": rng.choice([1, 2, 0.7, 3.5])}, "values": source()}
            elif op == "PropensityFit":
                args = {"input": source(), "targets": {"value": {a: 0.5 for a in actions}}}
            elif op == "ActionValueScoring":
                args = {"model_id": {"value": rng.randint(0, 5)}, "snapshot_id": {"value": rng.randint(0, 50)}}
            elif op == "Expression":
                args = {"equation": {"value": rng.choice(["x * 2 - y", "x + y * 0.5", "-x / 4 - y", "(x - y) * (x + 1)"])}, "x": source(), "y": source()}
            else:
                args = {}
            nodes.append({"op": op, "args": args})
        nodes.append({"op": "EpsilonGreedyRanker", "args": {"epsilon": {"value": rng.choice([0, 0.0])}, "values": {"node": len(nodes) - 1}}})
        aggregator = rng.choice(["DRA_SUM", "DRA_MAX"])
        spec = {"nodes": nodes, "root": len(nodes) - 1, "reward": "m * 2 - 1", "aggregator": aggregator}
        values = evaluate(spec, len(nodes) - 2, given, actions, None)
        ranked = sorted(values, key=values.get, reverse=True)
        if any(values[a] - values[b] <= 1e-9 * max(1, abs(values[a])) for a, b in zip(ranked, ranked[1:])) or not all(map(math.isfinite, values.values())):
            continue
        with ctx.case("served", spec):
            svc = s.fresh()
            s.call("plan", service=svc, name="p", config=w.call("build", spec=spec)["first"])
            got = s.post(svc, "/api/request", {"plan_name": "p", "request_id": "r", "actions": {"names": actions}, "input": constant(given)})
            ctx.require(got["status"] == 200, "serves-exported-plan", f"{got}")
            out = json.loads(got["body"])["actions"]
            ctx.expect([a["name"] for a in out] == ranked and all(abs(a["propensity"] - 1) < 1e-9 for a in out), "means-the-same",
                       f"ranked {out}, the plan's values are {values}")
            ctx.saw("served")
            said = [{"name": a, "metrics": {"m": rng.gauss(0, 1) - 1}} for a in ranked[: rng.randint(1, 3)]]
            got = s.post(svc, "/api/feedback", {"plan_name": "p", "request_id": "r", "actions": said})
            ctx.require(got["status"] == 200, "serves-exported-plan", f"{got}")
            rewards = [a["metrics"]["m"] * 2 - 1 for a in said]
            record = s.call("logged", service=svc)[0]
            ctx.close(record["feedback"]["computed_reward"], sum(rewards) if aggregator == "DRA_SUM" else max(rewards), "reward-means-the-same", rtol=1e-9, atol=1e-12)
            ctx.saw("rewards")
            s.call("close", service=svc)
    # rankers that draw: the parameters arrive (a seed repeats; the propensities are those of the parameters)
    for i in range(ctx.n(20)):
        op = rng.choice(["SoftmaxRanker", "EpsilonGreedyRanker"])
        values = {a: float(k) * rng.choice([1, 0.25]) for k, a in enumerate(["a", "b", "c"])}
        t = rng.choice([0.3, 0.8, 1])
        args = {"values": {"value": values}, "seed": {"value": rng.randint(0, 99)}, ("temperature" if op == "SoftmaxRanker" else "epsilon"): {"value": t}}
        with ctx.case("drawn", (op, args)):
            svc = s.fresh()
            plan = w.call("build", spec={"nodes": [{"op": op, "args": args}], "root": 0})["first"]
            s.call("plan", service=svc, name="p", config=plan)
            body = {"plan_name": "p", "actions": {"names": list(values)}}
            outs = [json.loads(s.post(svc, "/api/request", body)["body"])["actions"] for _ in range(3)]
            ctx.expect(outs[0] == outs[1] == outs[2], "seed-means-the-same", f"with a seed the plan answered {outs}")
            first = outs[0][0]
            best = max(values, key=values.get)
            p = softmax(values, t)[first["name"]] if op == "SoftmaxRanker" else t / 3 + (1 - t) * (first["name"] == best)
            ctx.close(first["propensity"], p, "means-the-same", rtol=1e-7)
            ctx.saw("served")
            s.call("close", service=svc)


def exported(ctx, s, w):
    rng = ctx.sub("exported")
    apps = {f"app{k}": {f"{rng.choice(['plan', 'p q', 'v1.2'])}{j}": random_tree(rng, 5) for j in range(rng.randint(1, 4))} for k in range(3)}
    with ctx.case("export", sorted((a, sorted(p)) for a, p in apps.items())):
        for app, plans in apps.items():
            w.call("export", app_id=app, plans=plans)
        where = {"all": os.path.abspath("all"), "one": os.path.abspath("one"), "home": os.path.join(os.getcwd(), "reagent", "serving")}
        w.call("main", args=["--config-dir", where["all"]])
        w.call("main", args=["--config-dir", where["one"], "--app-id", "app1"])
        w.call("main", args=["--config-dir", where["one"], "--app-id", "app1"])  # over what is there
        w.call("main", args=["--app-id", "app2"])
        for place, expected in (("all", list(apps)), ("one", ["app1"]), ("home", ["app2"])):
            svc = s.fresh(config_dir=where[place])
            for app in expected:
                for name, spec in apps[app].items():
                    path = os.path.join(where[place], app, name + ".json")
                    ctx.require(os.path.isfile(path), "export-writes-every-plan", f"{app}/{name}.json was not written to {place}")
                    ctx.saw("exported_files")
                    compare(ctx, spec, s.call("describe", service=svc, name=f"{app}/{name}.json"))
            files = sorted(os.path.join(os.path.relpath(d, where[place]), f) for d, _, fs in os.walk(where[place]) for f in fs)
            mine = sorted(os.path.join(a, n + ".json") for a in expected for n in apps[a])
            ctx.expect([f for f in files if not f.startswith("example")] == mine, "export-writes-only-its-plans", f"{place}: {files}, expected {mine}")
            if place == "all":
                for f in files:
                    if f.startswith("example"):
                        seen = s.call("describe", service=svc, name=f)
                        ctx.expect(seen["reward_aggregator"] in (1, 2) and seen["operators"], "example-plans", f"{f}: {seen}")
                        ctx.saw("exported_files")
                ctx.expect(sum(f.startswith("example") for f in files) >= 1, "export-writes-every-plan", "the application that comes with the code was not exported")
            s.call("close", service=svc)
        try:
            w.call("main", args=["--config-dir", where["one"], "--app-id", "nobody"])
            ctx.expect(False, "export-refuses-unknown", "an unknown application was exported")
        except RuntimeError:
            ctx.saw("refused_in_python")
    # files that are no plans do not keep the others from being read
    with ctx.case("other files", "directory"):
        d = os.path.abspath("mixed")
        os.makedirs(os.path.join(d, "empty"))
        spec = random_tree(rng, 4)
        plan = w.call("build", spec=spec)["first"]
        for name, content in (("a.json", "{"), ("b.json", json.dumps({**plan, "operators": [{"name": "x", "op_name": "Nothing", "input_dep_map": {}}]})),
                              ("empty.json", ""), ("sub/good.json", json.dumps(plan)), ("z.json", json.dumps({**plan, "constants": 3}))):
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        svc = s.fresh(config_dir=d)
        compare(ctx, spec, s.call("describe", service=svc, name="sub/good.json"))
        for name in ("a.json", "b.json", "empty.json", "z.json", "empty"):
            ctx.expect(s.refused("describe", service=svc, name=name), "no-plan-from-other-files", f"{name} became a plan")


def run(ctx):
    s = native.Session(native.build_all(["asan"], ".")["asan"])
    w = Worker()
    for f in (offered, described, refusals, encoded, served, exported):
        with ctx.part(f.__name__):
            with ctx.case("part", f.__name__, trivial=True):
                f(ctx, s, w)
    with ctx.case("end", "the driver ends without a sanitizer report", trivial=True):
        s.close()
    w.close()
