"""C02: configuration round-trips and unions select exactly one alternative."""
import vf.quiet  # noqa
from vf import stubs  # noqa
import abc
import copy
import dataclasses
import glob
import importlib
import inspect
import json
import math
import os
import random
import sys
import types
from typing import Any, Dict, List, NamedTuple, Optional

import torch
import reagent
import reagent.training  # noqa
import reagent.core.dataclasses as rdc
from reagent.base_dataclass import BaseDataClass
from reagent.core.configuration import make_config_class, param_hash, resolve_defaults
from reagent.core.registry_meta import RegistryMeta
from reagent.core.tagged_union import TaggedUnion
from reagent.core.utils import lazy_property
from reagent.json_serialize import from_json, json_to_object, object_to_json
from ruamel.yaml import YAML

RULE = (
    "Random functions (every kind of parameter, default and nesting, partly configurations themselves) are turned into configuration classes and "
    "called through them; random registries fill unions; random typed values go through JSON. Every bundled registry and every sample configuration "
    "file is loaded as the command line would, also with numbers changed and keys added, removed or repeated. A model of the stated values and the "
    "declared defaults predicts each constructed object, what the function finally receives and what must be refused."
)
REQUIRED = {"functions": 60, "configs": 250, "fields": 1000, "defaulted": 250, "refused_unknown": 100, "refused_missing": 40, "refused_type": 40, "received": 250, "nested": 60, "mutable_defaults": 60,
            "registries": 25, "registered": 90, "duplicate_refused": 20, "late_refused": 20, "unions": 90, "several_refused": 60, "bundled": 40, "files": 19, "file_variants": 100, "file_leaves": 900,
            "file_refused": 60, "json": 100, "lazy": 25, "commands": 10, "replaced": 30}

BAD = (TypeError, ValueError, AssertionError)  # pydantic's ValidationError is a ValueError


def refuses(ctx, f, mech, msg, seen, **w):
    try:
        got = f()
    except BAD:
        ctx.saw(seen)
        return True
    return ctx.expect(False, mech, msg, got=repr(got)[:200], **w)


# --------------------------------------------------------- generated functions
class Kind:
    def __init__(self, text, make, bad=("not this",), near=None):
        self.text, self.make, self.bad = text, make, bad


def text(rng):
    return "".join(rng.choice("abcxyz ") for _ in range(rng.randint(1, 6)))


SCALARS = {
    "int": lambda r: r.randint(-9, 10 ** 6), "float": lambda r: r.choice([0.5, -1.25, 3.0, 1e-9, r.random()]), "str": text, "bool": lambda r: r.random() < .5,
    "List[int]": lambda r: [r.randint(0, 9) for _ in range(r.randint(0, 4))], "List[str]": lambda r: [text(r) for _ in range(r.randint(0, 3))],
    "Dict[str, float]": lambda r: {text(r): r.random() for _ in range(r.randint(0, 3))}, "Dict[int, List[int]]": lambda r: {r.randint(0, 9): [r.randint(0, 9)] for _ in range(r.randint(0, 3))},
    "Optional[int]": lambda r: r.choice([None, r.randint(1, 9)]), "Optional[List[float]]": lambda r: r.choice([None, [r.random()]]), "Optional[str]": lambda r: r.choice([None, "", text(r)]),
}
WRONG = {"int": ["many", [1], {}], "float": ["x", [1.0]], "str": [[1], {"a": 1}], "bool": ["perhaps", [2]], "List[int]": [3, ["x"], "ab"], "List[str]": [5, {"a"} and 7], "Dict[str, float]": [[1], {"a": "b"}],
         "Dict[int, List[int]]": [{"x": [1]}, {1: "a"}, 4], "Optional[int]": ["x", []], "Optional[List[float]]": [["x"], 3], "Optional[str]": [[1]]}


class Gen:
    """one random function, its configuration class, and what we know of both"""

    def __init__(self, rng, depth, ns):
        self.rng, self.depth = rng, depth
        name = f"F{len(ns)}"
        ns[name] = None
        params, self.fields = [], {}
        self.hidden, self.hidden_required = [], []
        n = rng.randint(1, 7)
        for i in range(n):
            p = f"p{i}"
            r = rng.random()
            if r < .12:  # cannot be a field: a module
                t = rng.choice(["torch.nn.Module", "Optional[torch.nn.Module]", "torch.nn.Linear"])
                params.append((p, f"{p}: {t}", rng.choice([None, "None"]) if True else None))
                self.hidden.append(p)
                continue
            if r < .17:  # neither annotated nor defaulted
                params.append((p, p, None))
                self.hidden.append(p)
                continue
            if r < .30:  # type taken from the default
                t = rng.choice(["int", "float", "str", "bool"])
                v = SCALARS[t](rng)
                self.fields[p] = [t, ("value", v), None]
                params.append((p, p, repr(v)))
                continue
            if r < .48 and depth:
                sub = Gen(rng, depth - 1, ns)
                required = all(d is not None for _, d, _ in sub.fields.values())
                t = rng.choice([sub.cls_name, f"Optional[{sub.cls_name}]"])
                if t.startswith("Optional"):
                    d = ("value", None) if rng.random() < .6 else None
                else:
                    d = ("factory", sub) if required and rng.random() < .5 else None
            else:
                sub, t = None, rng.choice(sorted(SCALARS))
                mutable = t.startswith(("List", "Dict"))
                d = rng.choice([None, ("factory" if mutable else rng.choice(["value", "field"]), SCALARS[t](rng))])
                if d and d[1] is not None and t == "Optional[List[float]]":
                    d = ("factory", d[1])
            ns[f"D{id(d)}"] = d
            self.fields[p] = [t, d, sub]
            if d is None:
                src = None
            elif d[0] == "value":
                src = repr(d[1])
            elif d[0] == "field":
                src = f"field(default={d[1]!r})"
            else:
                src = f"field(default_factory={t})" if isinstance(d[1], Gen) else f"field(default_factory=lambda: {d[1]!r})"
            params.append((p, f"{p}: {t}", src))
        params.sort(key=lambda x: x[2] is not None)
        self.order = [p for p, _, _ in params]
        self.sources = dict((p, s) for p, _, s in params)
        sig = ", ".join(a if s is None else f"{a} = {s}" for _, a, s in params)
        self.fname = name
        exec(f"def {name}({sig}):\n    return dict(locals())", ns)
        self.raw = ns[name]
        self.func = ns[name] = resolve_defaults(self.raw)
        kw, self.white, self.black = {}, None, None
        usable = list(self.fields)
        r = rng.random()
        if r < .25 and usable:
            self.white = kw["whitelist"] = rng.sample(usable, rng.randint(1, len(usable)))
        elif r < .5 and usable:
            self.black = kw["blacklist"] = rng.sample(usable, rng.randint(1, len(usable)))
        keep = set(self.white) if self.white else set(usable) - set(self.black or ())
        self.dropped = {k: v for k, v in self.fields.items() if k not in keep}
        self.fields = {k: v for k, v in self.fields.items() if k in keep}
        if self.white:  # dataclass order: a field without default may not follow one with
            kw["whitelist"] = sorted(self.white, key=lambda p: self.order.index(p))
        self.cls_name = f"C{name}"
        self.cls = ns[self.cls_name] = make_config_class(self.func, **kw)(type(self.cls_name, (), {}))
        self.ns = ns

    def default(self, p):
        """the declared default of a field as (present, plain value)"""
        t, d, sub = self.fields[p]
        if d is None:
            return False, None
        if isinstance(d[1], Gen):
            return True, d[1].full({})
        return True, d[1]

    def full(self, given):
        """every field's plain value when `given` is stated"""
        out = {}
        for p, (t, d, sub) in self.fields.items():
            if p in given:
                out[p] = sub.full(given[p]) if sub is not None and given[p] is not None else given[p]
            else:
                out[p] = self.default(p)[1]
        return out

    def random(self, rng):
        out = {}
        for p, (t, d, sub) in self.fields.items():
            if d is not None and rng.random() < .4:
                continue
            if sub is not None:
                out[p] = None if t.startswith("Optional") and rng.random() < .3 else sub.random(rng)
            else:
                out[p] = SCALARS[t](rng)
        return out


def plain(o):
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return {f.name: plain(getattr(o, f.name)) for f in dataclasses.fields(o)}
    if isinstance(o, list):
        return [plain(x) for x in o]
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    return o


def typed(a, b):
    """equal, and of the same types all the way down"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(typed(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(typed, a, b))
    return type(a) is type(b) and a == b


def build_ok(ctx, g, cfg, given, mech):
    want = g.full(given)
    ctx.expect(typed(plain(cfg), want), mech, "the configuration does not hold exactly the stated values and the declared defaults elsewhere", given=given, got=plain(cfg), want=want)
    for p, (t, d, sub) in g.fields.items():
        if sub is not None and getattr(cfg, p, None) is not None:
            ctx.saw("nested")
            ctx.expect(type(getattr(cfg, p)) is sub.cls, mech + ":class", "a nested configuration is not of the declared class", field=p, got=type(getattr(cfg, p)).__name__)


def functions(ctx, rng):
    ns = dict(List=List, Dict=Dict, Optional=Optional, torch=torch, field=rdc.field)
    g = Gen(rng, 2, ns)
    ctx.saw("functions")
    ctx.expect(sorted(f.name for f in dataclasses.fields(g.cls)) == sorted(g.fields), "fields", "the configuration's fields are not the function's configurable parameters",
               got=sorted(f.name for f in dataclasses.fields(g.cls)), want=sorted(g.fields), signature=str(inspect.signature(g.raw)), white=g.white, black=g.black)
    for _ in range(6):
        given = g.random(rng)
        cfg = g.cls(**copy.deepcopy(given))
        ctx.saw("configs")
        ctx.saw("fields", len(g.fields))
        ctx.saw("defaulted", len(g.fields) - len(given))
        build_ok(ctx, g, cfg, given, "config")
        twin = g.cls(**copy.deepcopy(given))
        for p, (t, dd, sub) in g.fields.items():
            if p not in given and dd is not None and dd[0] == "factory" and not isinstance(dd[1], Gen):
                ctx.saw("mutable_defaults")
                ctx.expect(getattr(twin, p) is not getattr(cfg, p), "shared-field-default", "two configurations share one mutable default", field=p)
        # the same again, from its own dictionary form, and by nested objects
        again = g.cls(**plain(cfg))
        ctx.expect(again == cfg and type(again) is type(cfg), "round-trip", "a configuration rebuilt from its dictionary is not equal", got=plain(again), want=plain(cfg))
        ctx.expect(g.cls(**cfg.asdict()) == cfg, "round-trip-objects", "a configuration rebuilt from its own values is not equal")
        try:
            hash(cfg)
            ctx.expect(hash(again) == hash(cfg), "hash", "equal configurations hash differently")
        except TypeError:
            ok = any("List" in t and "Dict" in t or s is not None for t, d, s in g.fields.values())
            ctx.expect(ok, "unhashable", "a configuration of lists, dictionaries and scalars cannot be hashed", given=given)
        d = cfg.asdict()
        ctx.expect(list(d) == [f.name for f in dataclasses.fields(cfg)] and all(d[k] is getattr(cfg, k) for k in d), "asdict", "asdict must give the fields as they are")
        # what the function gets
        extra = {p: torch.nn.Linear(1, 1) for p in g.hidden if g.sources[p] is None}
        extra.update({p: SCALARS.get(t, lambda r: None)(rng) for p, (t, dd, s) in g.dropped.items() if dd is None})
        got = g.func(**d, **extra)
        ctx.saw("received")
        left = {k: v for k, v in got.items() if k in d}
        ctx.expect(left.keys() == d.keys() and all(left[k] is d[k] for k in d), "received", "the function did not get the configured values", got=plain(left), want=plain(d))
        for p, (t, dd, sub) in g.dropped.items():
            if dd is not None:
                w = dd[1].full({}) if isinstance(dd[1], Gen) else dd[1]
                ctx.expect(typed(plain(got[p]), w), "received-default", "a parameter left out does not have its declared default", got=plain(got[p]), want=w)
        for p in d:
            try:
                setattr(cfg, p, 1)
                ctx.expect(False, "frozen", "a configuration can be changed after it is made")
            except (dataclasses.FrozenInstanceError, AttributeError, TypeError):
                pass
        refuses(ctx, lambda: g.cls(**given, no_such_field=1), "unknown-field", "an unknown field was accepted", "refused_unknown")
        for p, (t, dd, sub) in g.fields.items():
            if dd is None:
                less = {k: v for k, v in given.items() if k != p}
                refuses(ctx, lambda: g.cls(**less), "missing-field", "a missing required field was accepted", "refused_missing", field=p, type=t)
            if sub is not None and given.get(p) is not None:
                refuses(ctx, lambda: g.cls(**{**given, p: {**given[p], "no_such_field": 1}}), "unknown-nested", "an unknown field of a nested configuration was accepted", "refused_unknown")
            if t in WRONG and p not in g.hidden:
                w = rng.choice(WRONG[t])
                refuses(ctx, lambda: g.cls(**{**given, p: w}), "wrong-type", "a value of another type was accepted", "refused_type", type=t, value=repr(w))
    # defaults resolved at the call are fresh each time
    required = {p: None for p in g.order if g.sources[p] is None}
    a, b = g.func(**required), g.func(*required.values())
    for p in g.order:
        if p in required:
            continue
        s = g.sources[p]
        ctx.expect(not isinstance(a[p], dataclasses.Field), "unresolved", "a default field object reached the function", param=p)
        if "default_factory" in s:
            ctx.saw("mutable_defaults")
            ctx.expect(plain(a[p]) == plain(b[p]) and (a[p] is not b[p] or not isinstance(a[p], (list, dict))), "shared-default", "two calls share one mutable default", param=p)
    refuses(ctx, lambda: g.func(*[1] * (len(g.order) + 1)), "too-many", "too many positional values were accepted", "refused_unknown")
    if g.fields:
        try:
            make_config_class(g.func, whitelist=["p0"], blacklist=["p1"])
            ctx.expect(False, "white-and-black", "whitelist and blacklist together were accepted")
        except AssertionError:
            pass


# ------------------------------------------------------------------ registries
def registries(ctx, rng):
    ctx.saw("registries")
    vanilla = rng.random() < .3
    old = rdc.USE_VANILLA_DATACLASS
    rdc.USE_VANILLA_DATACLASS = vanilla
    try:
        Base = RegistryMeta("Base", (), {"__module__": __name__, **({"go": abc.abstractmethod(lambda self: None)} if rng.random() < .5 else {})})
        want, tops = {}, [Base]
        for i in range(rng.randint(2, 7)):
            abstract = rng.random() < .25
            parent = rng.choice(tops)
            body = {"__module__": __name__, "__annotations__": {"x": int, "y": Dict[str, int]}, "x": i, "y": rdc.field(default_factory=dict)}
            post = []
            body["go"] = abc.abstractmethod(lambda self: None) if abstract else (lambda self, i=i: i)
            if rng.random() < .3 and not abstract:
                body["__post_init_post_parse__"] = lambda self, post=post: post.append(self.x)
            name = f"K{i}"
            shown = name
            if rng.random() < .3 and not abstract:
                shown = body["__registry_name__"] = f"other name {i}" if vanilla and False else f"alias_{i}"
            cls = RegistryMeta(name, (parent,), body)
            cls = rdc.dataclass(cls)
            if abstract:
                tops.append(cls)
            else:
                want[shown] = cls
                ctx.saw("registered")
                if post or "__post_init_post_parse__" in body:
                    n = len(post)
                    cls(x=41)
                    ctx.expect(post[n:] == [41], "post-init", "the post-initialisation hook was not run once with the fields set", got=post)
        ctx.expect(Base.REGISTRY.keys() == want.keys() and all(Base.REGISTRY[k].__name__ == want[k].__name__ for k in want), "registry", "the registry does not hold exactly the concrete classes by name",
                   got=sorted(Base.REGISTRY), want=sorted(want))
        if want:
            k = rng.choice(sorted(want))
            try:
                RegistryMeta("Twice", (Base,), {"__registry_name__": k, "go": lambda self: 0})
                ctx.expect(False, "duplicate", "a second class was registered under a taken name", name=k)
            except AssertionError:
                ctx.saw("duplicate_refused")
            ctx.expect(Base.REGISTRY[k] is not None and Base.REGISTRY[k].__name__ == want[k].__name__, "duplicate-kept", "a refused registration replaced the class of that name")
        U = Base.fill_union()(type("U", (TaggedUnion,), {"__module__": __name__}))
        try:
            RegistryMeta("Late", (Base,), {"go": lambda self: 0})
            ctx.expect(False, "late", "a class was registered after its union was filled")
        except AssertionError:
            ctx.saw("late_refused")
        ctx.expect({f.name for f in dataclasses.fields(U)} == set(want), "union-fields", "the union's alternatives are not the registered names", got=[f.name for f in dataclasses.fields(U)])
        for name, cls in want.items():
            ctx.saw("unions")
            x, y = rng.randint(0, 99), {text(rng): rng.randint(0, 9)}
            obj = cls(x=x, y=y)
            made = U.make_union_instance(obj)
            ctx.expect(made.value == obj and made == U(**{name: obj}), "union-instance", "a union made for an object does not hold it")
            ctx.expect(U.make_union_instance(obj, cls) == made, "union-instance-class", "naming the class explicitly gives another alternative")
            if not vanilla:
                u = U(**{name: dict(x=x, y=y)})
                ctx.expect(type(u.value) is cls and u.value == obj and u == made, "union-from-dict", "a union built from a dictionary does not hold an object of the registered class with these values", got=repr(u)[:200])
                ctx.expect(u.value.go() == cls().go(), "union-behaviour", "the object selected behaves like another class")
                refuses(ctx, lambda: U(**{name: dict(x=1, z=2)}), "union-unknown-field", "an unknown field of an alternative was accepted", "refused_unknown")
            if len(want) > 1:
                other = rng.choice([k for k in want if k != name])
                refuses(ctx, lambda: U(**{name: obj, other: want[other]()}).value, "union-several", "two alternatives at once gave a value", "several_refused")
            try:
                made.__class__.__setattr__(made, name, None)
                ctx.expect(False, "union-frozen", "the selection of a union can be changed")
            except (dataclasses.FrozenInstanceError, AttributeError, TypeError):
                pass
        refuses(ctx, lambda: U().value, "union-none", "a union without selection gave a value", "several_refused")
        refuses(ctx, lambda: U(no_such_name={}), "union-unknown", "an unregistered name was accepted", "refused_unknown")
        if "__post_init__":
            refuses(ctx, lambda: rdc.dataclass(type("P", (), {"__annotations__": {"a": int}, "__post_init__": lambda self: None})), "post-init-refused", "a class with __post_init__ was accepted", "refused_unknown")
    finally:
        rdc.USE_VANILLA_DATACLASS = old


# ------------------------------------------------------------------ bundled
UNIONS = ("reagent.optimizer.union reagent.optimizer.scheduler_union reagent.gym.envs reagent.validators.union reagent.publishers.union reagent.net_builder.unions reagent.net_builder.slate_ranking "
          "reagent.net_builder.slate_reward reagent.workflow.model_managers.union reagent.workflow.types").split()


def bundled(ctx):
    for m in UNIONS:
        mod = importlib.import_module(m)
        for n, u in sorted(vars(mod).items()):
            if not (isinstance(u, type) and issubclass(u, TaggedUnion) and u is not TaggedUnion and u.__module__ == m):
                continue
            with ctx.case("bundled", dict(union=n)):
                names = [f.name for f in dataclasses.fields(u)]
                for f in dataclasses.fields(u):
                    cls = f.type.__args__[0]
                    ctx.saw("bundled")
                    ctx.expect(cls.REGISTRY.get(f.name) is cls, "bundled-class", "a name of a union is not the class registered under it", union=n, name=f.name, cls=cls.__name__)
                    try:
                        inst = cls()
                    except BAD:
                        continue  # required fields
                    got = u(**{f.name: {}})
                    ctx.expect(type(got.value) is cls and got.value == inst and u.make_union_instance(inst) == got, "bundled-select", "selecting by name does not give the named class with its defaults", union=n, name=f.name, got=repr(got)[:200])
                    ctx.expect([k for k in names if getattr(got, k) is not None] == [f.name], "bundled-one", "another alternative is set as well", union=n, name=f.name)
                    refuses(ctx, lambda: u(**{f.name: {"no_such_option": 1}}), "bundled-unknown", "an unknown option was accepted", "refused_unknown", union=n, name=f.name)


def check_tree(ctx, d, obj, path, where):
    """every value in the nested dictionary is found in the object, defaults elsewhere"""
    if isinstance(d, dict) and dataclasses.is_dataclass(obj):
        if isinstance(obj, TaggedUnion):
            ctx.expect(len(d) == 1 and obj.value is getattr(obj, next(iter(d))), "file-union", "the alternative selected is not the one named", path=path, file=where)
            k = next(iter(d))
            ctx.expect(type(obj.value).REGISTRY[k] is type(obj.value), "file-class", "the class is not the registered one", path=path, file=where)
        for k, v in d.items():
            check_tree(ctx, v, getattr(obj, k), path + "/" + str(k), where)
        for f in dataclasses.fields(obj):
            if f.name in d or isinstance(obj, TaggedUnion) or f.name.startswith("_") or not f.init:
                continue
            w = f.default_factory() if f.default_factory is not dataclasses.MISSING else f.default
            if w is not dataclasses.MISSING and not isinstance(w, dataclasses.Field):
                ctx.saw("defaulted")
                ctx.expect(repr(getattr(obj, f.name)) == repr(w) or getattr(obj, f.name) == w, "file-default", "a field the file does not state differs from its declared default", path=path + "/" + f.name, got=repr(getattr(obj, f.name))[:200], want=repr(w)[:200], file=where)
    elif isinstance(d, dict):
        ctx.expect(isinstance(obj, dict) and [str(k) for k in d] == [str(k) for k in obj], "file-dict", "a dictionary's keys", path=path, got=repr(obj)[:100], file=where)
        for (k, v), o in zip(d.items(), obj.values()):
            check_tree(ctx, v, o, path + "/" + str(k), where)
    elif isinstance(d, list):
        ctx.expect(isinstance(obj, (list, tuple)) and len(d) == len(obj), "file-list", "a list's length", path=path, file=where)
        for i, (a, b) in enumerate(zip(d, obj)):
            check_tree(ctx, a, b, f"{path}/{i}", where)
    else:
        ctx.saw("file_leaves")
        v = obj.value if hasattr(obj, "value") and not dataclasses.is_dataclass(obj) else obj
        ctx.expect(v == d or str(v) == str(d) or (isinstance(v, float) and isinstance(d, (int, str)) and float(d) == v), "file-value", "a value of the file is not the one configured", path=path, got=repr(obj)[:100], want=repr(d), file=where)


def vary(rng, d, hits):
    """change some numbers"""
    if isinstance(d, dict):
        return {k: vary(rng, v, hits) for k, v in d.items()}
    if isinstance(d, float) and rng.random() < .5:
        hits.append(1)
        return rng.choice([.25, .5, .125]) * (1 if d < 0 else 1)
    return d


def nodes(d, obj, path=()):
    if isinstance(d, dict) and dataclasses.is_dataclass(obj):
        yield path
        for k, v in d.items():
            yield from nodes(v, getattr(obj, k), path + (k,))


def put(d, path, key, value):
    d = copy.deepcopy(d)
    x = d
    for p in path:
        x = x[p]
    x[key] = value
    return d


def files(ctx, rng):
    from reagent.gym.envs import Env__Union
    from reagent.publishers.union import ModelPublisher__Union
    from reagent.workflow.model_managers.union import ModelManager__Union
    from reagent.workflow.types import ReaderOptions, TableSpec

    def job(env: Optional[Env__Union] = None, model: Optional[ModelManager__Union] = None, publisher: Optional[ModelPublisher__Union] = None, input_table_spec: Optional[TableSpec] = None,
            reader_options: Optional[ReaderOptions] = None):
        return env, model, publisher

    @make_config_class(job)
    class Config:
        pass

    root = os.path.dirname(reagent.__file__)
    from reagent.workflow.cli import select_relevant_params
    for f in sorted(glob.glob(os.path.join(root, "**", "*.yaml"), recursive=True)):
        name = os.path.relpath(f, root)
        whole = YAML(typ="safe").load(open(f).read())
        d = select_relevant_params(whole, Config) if isinstance(whole, dict) else {}
        ctx.expect(d == {k: v for k, v in whole.items() if k in ("env", "model", "publisher", "input_table_spec", "reader_options")}, "select", "the parameters of the workflow taken from the file") if isinstance(whole, dict) else None
        if "model" not in d and "env" not in d:
            continue
        with ctx.case("file", dict(file=name)):
            ctx.saw("files")
            cfg = Config(**copy.deepcopy(d))
            check_tree(ctx, d, cfg, "", name)
            ctx.expect(Config(**copy.deepcopy(d)) == cfg, "file-twice", "reading a file twice gives different configurations", file=name)
            for _ in range(ctx.n(8, 20)):
                hits = []
                e = vary(rng, d, hits)
                try:
                    other = Config(**copy.deepcopy(e))
                except BAD as x:
                    ctx.expect(False, "file-variant", "a file with other numbers was refused", file=name, error=str(x)[:200])
                    continue
                ctx.saw("file_variants")
                check_tree(ctx, e, other, "", name)
                where = rng.choice([p for p in nodes(d, cfg) if p])
                refuses(ctx, lambda: Config(**put(d, where, "no_such_option", 3)), "file-unknown", "an unknown option was accepted", "file_refused", path="/".join(where), file=name)


COMMAND = """
from typing import *
from reagent.core.dataclasses import dataclass, field
GOT = []
@dataclass
class Part:
    a: int
    b: List[str] = field(default_factory=list)
def work(x: int, part: Part, y: float = 2.5, z: Optional[Dict[str, int]] = None):
    GOT.append(dict(x=x, part=(part.a, part.b), y=y, z=z))
"""


def commands(ctx, rng):
    """the command line: a workflow and a file in, the function called with what the file says"""
    from click.testing import CliRunner
    from reagent.workflow import cli
    import reagent.debug_on_error as doe

    mod = types.ModuleType("vf_job")
    sys.modules["vf_job"] = mod
    exec(COMMAND, mod.__dict__)
    hook = sys.excepthook
    environ = dict(os.environ)
    try:
        for i in range(4):
            d = dict(x=rng.randint(0, 99), part=dict(a=rng.randint(0, 9)), unused=dict(some=1))
            if rng.random() < .5:
                d["part"]["b"] = [text(rng).strip() or "q" for _ in range(2)]
            if rng.random() < .5:
                d["y"] = rng.random()
            if rng.random() < .5:
                d["z"] = {"k": 3}
            bad = rng.random() < .3
            if bad:
                rng.choice([lambda: d.pop("x"), lambda: d["part"].pop("a"), lambda: d["part"].update(c=1), lambda: d.update(x="words")])()
            with open("c.yaml", "w") as f:
                YAML(typ="safe").dump(d, f)
            n = len(mod.GOT)
            r = CliRunner().invoke(cli.reagent, ["run", "vf_job.work", "c.yaml"])
            ctx.saw("commands")
            got = mod.GOT[n:]
            if bad:
                ctx.expect(r.exit_code != 0 and not got, "command-bad", "a workflow ran on a faulty file", file=d, got=got)
            else:
                want = dict(x=d["x"], part=(d["part"]["a"], d["part"].get("b", [])), y=d.get("y", 2.5), z=d.get("z"))
                ctx.expect(r.exit_code == 0 and got == [want], "command", "the workflow was not called once with the file's values", got=got, want=want, error=repr(r.exception))
    finally:
        sys.excepthook = hook
        os.environ.clear()
        os.environ.update(environ)
        del sys.modules["vf_job"]


# ------------------------------------------------------------------ typed values as JSON
def json_values(ctx, rng):
    ns = {}

    def make(depth):
        fields = []
        for i in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .35 and depth:
                sub, mk = make(depth - 1)
                form = rng.choice(["one", "list", "dict", "optional", "listlist", "optlist"])
                t = dict(one=sub, list=List[sub], dict=Dict[str, sub], optional=Optional[sub], listlist=List[List[sub]], optlist=Optional[List[sub]])[form]
                fields.append((f"f{i}", t, dict(one=mk, list=lambda mk=mk: [mk() for _ in range(rng.randint(0, 3))], dict=lambda mk=mk: {text(rng): mk() for _ in range(rng.randint(0, 3))},
                                                optional=lambda mk=mk: rng.choice([None, mk()]), listlist=lambda mk=mk: [[mk()] for _ in range(rng.randint(0, 2))], optlist=lambda mk=mk: rng.choice([None, [mk(), mk()], []]))[form]))
            else:
                name = rng.choice(["int", "float", "str", "bool", "List[int]", "Dict[str, float]", "Optional[int]", "Optional[str]", "Optional[List[float]]"])
                fields.append((f"f{i}", eval(name), lambda name=name: SCALARS[name](rng)))
        wrap = rng.choice([dataclasses.dataclass, rdc.dataclass])
        cls = wrap(type(f"J{len(ns)}", (), {"__annotations__": {n: t for n, t, _ in fields}, "__module__": __name__}))
        ns[cls.__name__] = cls
        return cls, lambda: cls(**{n: mk() for n, _, mk in fields})
    cls, mk = make(3)
    for _ in range(3):
        o = mk()
        j = object_to_json(o)
        ctx.saw("json")
        ctx.expect(json.loads(j) == json.loads(json.dumps(dataclasses.asdict(o))), "json-text", "the JSON does not hold the object's values", got=j[:200])
        back = json_to_object(j, cls)
        ctx.expect(type(back) is cls and back == o and typed(plain(back), plain(o)), "json-round-trip", "a typed value read back from its JSON is not equal", got=repr(back)[:300], want=repr(o)[:300])
        try:
            json_to_object(json.dumps({**json.loads(j), "no_such_field": 1}), cls)
            ctx.expect(False, "json-unknown", "an unknown field was accepted")
        except AssertionError:
            ctx.saw("refused_unknown")
    for bad in (3, "x", [1], {"a": 1}):
        try:
            object_to_json(bad)
            ctx.expect(False, "json-untyped", "an untyped value was serialised as an object")
        except AssertionError:
            ctx.saw("refused_type")
    from reagent.parameters import NormalizationData, NormalizationParameters
    v = NormalizationData(dense_normalization_parameters={rng.randrange(99): NormalizationParameters(feature_type=rng.choice(["CONTINUOUS", "BINARY"]), mean=rng.random(), possible_values=rng.choice([None, [1, 2]]))
                                                          for _ in range(rng.randint(0, 4))})
    ctx.expect(json_to_object(object_to_json(v), NormalizationData) == v, "json-normalization", "normalization data read back from JSON is not equal")


def small(ctx, rng):
    runs = []

    class Thing:
        def __init__(self, v):
            self.v = v

        @lazy_property
        def twice(self):
            """doc"""
            runs.append(self)
            return [self.v]
    a, b = Thing(1), Thing(2)
    seq = [rng.choice([a, b]) for _ in range(rng.randint(2, 8))]
    first = {}
    for o in seq:
        v = o.twice
        ctx.expect(v == [o.v] and v is first.setdefault(id(o), v), "lazy", "a lazy property gave another value")
    ctx.saw("lazy")
    ctx.expect(len(runs) == len({id(o) for o in seq}), "lazy-once", "a lazy property was computed more than once per object (or shared)", runs=len(runs))

    @dataclasses.dataclass
    class R(BaseDataClass):
        a: int
        b: str = "b"
        c: Optional[list] = None
    o = R(rng.randint(0, 9), text(rng), [1])
    ch = {k: v for k, v in dict(a=rng.randint(10, 20), b="new", c=None).items() if rng.random() < .6}
    n = o._replace(**ch)
    ctx.saw("replaced")
    ctx.expect(type(n) is R and n is not o and plain(n) == {**plain(o), **ch} and o.c == [1], "replace", "replacing fields must change exactly those in a new object", got=plain(n))


def run(ctx):
    for i in range(ctx.n(130, 800)):
        with ctx.case("function", dict(i=i)):
            functions(ctx, ctx.sub(f"f{i}"))
    for i in range(ctx.n(60, 300)):
        with ctx.case("registry", dict(i=i)):
            registries(ctx, ctx.sub(f"r{i}"))
        with ctx.case("json", dict(i=i)):
            json_values(ctx, ctx.sub(f"j{i}"))
        with ctx.case("small", dict(i=i)):
            small(ctx, ctx.sub(f"s{i}"))
    bundled(ctx)
    files(ctx, ctx.sub("files"))
    for i in range(ctx.n(6, 20)):
        with ctx.case("command", dict(i=i)):
            commands(ctx, ctx.sub(f"c{i}"))
