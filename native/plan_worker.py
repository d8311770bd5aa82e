"""Builds decision plans with the Python configuration builder: one JSON command per line in, one answer per line out."""
import contextlib
import io
import json
import sys
from enum import Enum
from typing import Dict, List, NamedTuple, Optional, Tuple

import reagent.serving.config.builder as b
import reagent.serving.config.config as config
import reagent.serving.config.namespace as namespace
import reagent.serving.config.serialize as serialize


def value(v):
    return v


def make(spec):
    nodes = []
    for n in spec["nodes"]:
        args = {k: nodes[a["node"]] if "node" in a else value(a["value"]) for k, a in n["args"].items()}
        nodes.append(getattr(b, n["op"])(**args))
    return nodes


def builder(spec, nodes):
    d = b.DecisionPlanBuilder()
    if "root" in spec:
        d.set_root(nodes[spec["root"]])
    if "root_value" in spec:
        d.set_root(spec["root_value"])
    if "num" in spec:
        d.set_num_actions_to_choose(spec["num"])
    if "reward" in spec:
        d.set_reward_function(spec["reward"])
    if "aggregator" in spec:
        d.set_reward_aggregator(getattr(config.DecisionRewardAggreation, spec["aggregator"]))
    return d


class Text(str):
    pass


class Count(int):
    pass


class Share(float):
    pass


def typed(t, v):
    """The type named by t, and the value of it written as v."""
    if isinstance(t, str):
        plain = {"str": str, "int": int, "float": float, "const": config.ConstantValue}
        subclass = {"text": Text, "count": Count, "share": Share}
        if isinstance(v, dict) and "sub" in v:
            v = subclass[v["sub"]](v["of"])
        return plain[t], v
    kind, *of = t
    if kind == "opt":
        inner, w = typed(of[0], v)
        return Optional[inner], None if v is None else w
    if kind == "list":
        inner = typed(of[0], None if not v else v[0])[0]
        return List[inner], v if v is None else [typed_value(of[0], inner, x) for x in v]
    if kind == "dict":
        inner = typed(of[0], None if not v else next(iter(v.values())))[0]
        return Dict[str, inner], v if v is None else {k: typed_value(of[0], inner, x) for k, x in v.items()}
    if kind == "tuple":
        return Tuple[tuple(typed(x, None)[0] for x in of)], v if v is None else tuple(v)
    if kind == "tuple*":
        return Tuple[typed(of[0], None)[0], ...], v if v is None else tuple(v)
    if kind == "enum":
        cls = Enum("Choice", of[0])
        return cls, None if v is None else cls[v]
    fields = {k: typed(x, None if v is None else v[k]) for k, x in of[0].items()}
    cls = NamedTuple("Record", [(k, x) for k, (x, _) in fields.items()])
    return cls, None if v is None else cls(**{k: x for k, (_, x) in fields.items()})


def typed_value(t, cls, v):
    if isinstance(t, list) and t[0] == "enum":
        return cls[v]
    if isinstance(t, list) and t[0] == "record":
        return cls(**{k: typed(x, v[k])[1] for k, x in t[1].items()})
    return typed(t, v)[1]


def handle(c):
    if c["cmd"] == "encode":
        cls, v = typed(["record", c["fields"]], c["value"])
        return serialize.config_to_json(cls, v)
    if c["cmd"] == "offered":
        return sorted({k for k, v in vars(b).items() if isinstance(v, type) and issubclass(v, namespace.DecisionOperator) and v is not namespace.DecisionOperator})
    if c["cmd"] == "build":
        nodes = make(c["spec"])
        d = builder(c["spec"], nodes)
        first = d.build()
        other = builder(c["spec"], nodes).build()
        if c.get("between"):
            builder(c["between"], make(c["between"])).build()
        return {"first": first, "again": d.build(), "other": other}
    if c["cmd"] == "export":
        b.export(app_id=c["app_id"], configs={k: builder(s, make(s)).build() for k, s in c["plans"].items()})
        return None
    if c["cmd"] == "main":
        with contextlib.redirect_stdout(io.StringIO()):
            import reagent.serving.config.main as main
            main.export.main(c["args"], standalone_mode=False)
        return None
    raise RuntimeError(c["cmd"])


out = sys.stdout
for line in sys.stdin:
    try:
        answer = {"ok": handle(json.loads(line))}
    except Exception as e:  # noqa
        answer = {"error": f"{type(e).__name__}: {e}"}
    out.write(json.dumps(answer) + "\n")
    out.flush()
