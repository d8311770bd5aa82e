"""Data queries: timeline tables -> training rows, run on an in-memory stand-in for Spark (vf/minispark.py)."""
import math
import zlib

import numpy as np
import vf.quiet  # noqa
import vf.minispark as ms  # before the workflow package
from reagent.preprocessing.normalization import get_feature_norm_metadata
from reagent.workflow.data_fetcher import query_data
from reagent.workflow.identify_types_flow import identify_normalization_parameters
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.types import PreprocessingOptions, TableSpec

RULE = "a case is one random timeline table queried with random options; non-trivial = at least one training row was compared with the table row it came from"
REQUIRED = {"row": 2000, "cell": 30000, "multi_step": 400, "terminal": 200, "custom_reward": 200, "left_out": 200, "split_episode": 100, "on_the_cut": 15, "identified": 60, "refused": 20, "taken_name": 15, "manager_identified": 40, "manager_columns": 20}
MAX = 4294967295
F = lambda v: float(np.float32(v))


REWARDS = [  # (SQL, same in Python)
    ("POWER(reward, 3) + 10", lambda r, m: r ** 3 + 10), ("reward * 2 - 1", lambda r, m: r * 2 - 1), ("metrics['m1']", lambda r, m: m.get("m1")), ("reward + 0.5 * COALESCE(metrics['m0'], 0)", lambda r, m: r + 0.5 * (m.get("m0") or 0)),
    ("CASE WHEN reward > 0 THEN 1.0 ELSE -1.0 END", lambda r, m: 1.0 if r > 0 else -1.0), ("LEAST(reward, 1.5)", lambda r, m: min(r, 1.5)), ("ABS(reward)", lambda r, m: abs(r)), ("-(reward)", lambda r, m: -r),
]


def table(rng, discrete, multi):
    """Random timeline table: every row knows its episode, its successor(s) and what they hold."""
    feats = rng.sample(range(0, 60), rng.randint(1, 6))
    if rng.random() < 0.3:
        feats = [f * 7 - 50 for f in feats]
    mets = rng.sample(["m0", "m1", "m2", "reward", "b"], rng.randint(1, 3))
    names = rng.sample(["L", "R", "U", "D", "left", "0", "1"], rng.randint(2, 5)) if discrete else rng.sample(range(40), rng.randint(1, 4))
    mp = lambda keys, p=0.75, none=0.08: {k: None if rng.random() < none else F(rng.uniform(-50, 50)) for k in keys if rng.random() < p}
    act = (lambda: rng.choice(names)) if discrete else (lambda: {k: v for k, v in mp(names, 0.8, 0).items()} or {names[0]: F(rng.uniform(-1, 1))})
    end = "" if discrete else {}
    allowed = lambda a: sorted(set(rng.sample(names, rng.randint(1, len(names)))) | {a})
    rows = []
    for e in range(rng.randint(1, 7)):
        mdp = rng.choice(["ep", "", "é-", "user_"]) + str(rng.randrange(10 ** rng.randint(1, 6)))
        n = rng.randint(1, 6)
        states = [mp(feats) for _ in range(n + 1)]
        acts = [act() for _ in range(n)] + [end]
        poss = ([allowed(a) for a in acts[:-1]] + [[""]]) if discrete else None
        rew = [F(rng.choice([rng.uniform(-5, 5), 0.0, rng.randint(-3, 3)])) for _ in range(n)]
        met = [mp(mets) for _ in range(n)]
        diff = [rng.randint(1, 9) for _ in range(n)]
        truncated = rng.random() < 0.2  # a log that stops before the episode ends has no terminal marker
        if truncated:
            acts[-1] = act()
            if discrete:
                poss[-1] = allowed(acts[-1])
        for t in range(n):
            k = min(multi or 1, n - t)
            pick = (lambda xs, off: [xs[t + off + i] for i in range(k)]) if multi else (lambda xs, off: xs[t + off])
            row = dict(mdp_id=mdp, sequence_number=t * 3, sequence_number_ordinal=t + 1, state_features=states[t], action=acts[t], action_probability=F(rng.random()), reward=pick(rew, 0), next_state_features=pick(states, 1), next_action=pick(acts, 1), time_diff=pick(diff, 0), metrics=pick(met, 0), ds="2019-07-17")
            if discrete:
                row.update(possible_actions=poss[t], possible_next_actions=pick(poss, 1))
            rows.append(row)
    if len({r["mdp_id"] for r in rows}) > 1 and rng.random() < 0.5:
        rng.shuffle(rows)
    return rows, names


def dense(m, keys):
    return [m.get(k) is not None for k in keys], [F(m[k]) if m.get(k) is not None else 0.0 for k in keys]


def expected(rows, discrete, actions, multi, gamma, reward_fn, lo, hi):
    keep = [r for r in rows if lo / 100 * MAX <= zlib.crc32(r["mdp_id"].encode()) <= hi / 100 * MAX]
    last = (lambda v: v[-1]) if multi else (lambda v: v)
    everyone = lambda v: v if multi else [v]
    skeys = sorted({k for r in keep for k in r["state_features"]} | {k for r in keep for m in everyone(r["next_state_features"]) for k in m})
    mkeys = sorted({k for r in keep for m in everyone(r["metrics"]) for k in m})
    akeys = None if discrete else sorted({k for r in keep for k in r["action"]} | {k for r in keep for m in everyone(r["next_action"]) for k in m})
    out = []
    for r in keep:
        if reward_fn:
            v = reward_fn(r["reward"], r["metrics"])
            rew = 0.0 if v is None else v
        elif multi:
            rew = sum(gamma ** i * x for i, x in enumerate(r["reward"]))
        else:
            rew = r["reward"]
        row = dict(reward=rew, action_probability=r["action_probability"], mdp_id=zlib.crc32(r["mdp_id"].encode()), sequence_number=r["sequence_number_ordinal"], step=len(r["next_state_features"]) if multi else 1, time_diff=last(r["time_diff"]))
        for name, m, keys in [("state_features", r["state_features"], skeys), ("next_state_features", last(r["next_state_features"]), skeys), ("metrics", last(r["metrics"]), mkeys)]:
            row[name + "_presence"], row[name] = dense(m, keys)
        na = last(r["next_action"])
        if discrete:
            idx = lambda a: actions.index(a) if a in actions else len(actions)
            row.update(action=idx(r["action"]), next_action=idx(na), not_terminal=na in actions, possible_actions_mask=[int(a in r["possible_actions"]) for a in actions], possible_next_actions_mask=[int(a in last(r["possible_next_actions"])) for a in actions])
        else:
            row["not_terminal"] = bool(na)
            for name, m in [("action", r["action"]), ("next_action", na)]:
                row[name + "_presence"], row[name] = dense(m, akeys)
        out.append(row)
    return out


def key(r):
    return (r["mdp_id"], r["sequence_number"])


def same(a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return a is not None and math.isclose(a, b, rel_tol=2e-5, abs_tol=2e-5)
    return a == b


def ask(ctx, rng, name, **kw):
    """One query; returns the training rows it stored."""
    before = set(ms.TABLES)
    ds = query_data(input_table_spec=TableSpec(table_name=name), **kw)
    made = set(ms.TABLES) - before
    ctx.require(len(made) == 1, "one-output-table", f"{made}")
    df = ms.read_parquet(ds.parquet_url)
    ctx.require(df is ms.TABLES[made.pop()], "dataset-names-the-output", ds.parquet_url)
    return df


def querying(ctx, rng):
    discrete = rng.random() < 0.6
    multi = rng.choice([None, None, 1, 2, 3, 5])
    rows, names = table(rng, discrete, multi)
    gamma = rng.choice([0.0, 0.9, 0.5, 1.0, round(rng.random(), 3)])
    custom = rng.choice(REWARDS) if multi is None and rng.random() < 0.5 else None
    lo, hi = rng.choice([(None, None), (0.0, 100.0), (0.0, 60.0), (40.0, 100.0), (25.0, 75.5)])
    actions = rng.sample(names, len(names)) if discrete else None
    if discrete and rng.random() < 0.2:
        actions.append("never")
    desc = dict(discrete=discrete, multi=multi, gamma=gamma, custom=custom and custom[0], range=(lo, hi), actions=actions, rows=rows)
    with ctx.case("query", desc):
        ms.reset(rng.randrange(1 << 30))
        ms.table("input_tbl", rows)
        snap = repr(rows)
        kw = dict(discrete_action=discrete, include_possible_actions=discrete, custom_reward_expression=custom and custom[0], multi_steps=multi)
        if multi is not None or rng.random() < 0.5:
            kw["gamma"] = gamma
        if discrete:
            kw["actions"] = actions
        if lo is not None:
            kw["sample_range"] = (lo, hi)
        want = expected(rows, discrete, actions, multi, gamma, custom and custom[1], lo or 0.0, 100.0 if hi is None else hi)
        df = ask(ctx, rng, "input_tbl", **kw)
        ctx.expect(repr(rows) == snap and repr(actions) == repr(desc["actions"]), "inputs-untouched", "")
        got = [dict(r) for r in df.rows]
        ctx.saw("left_out", len(rows) - len(want))
        ctx.require(len(got) == len(want), "rows-conserved", f"{len(got)} training rows from {len(want)} table rows in range ({len(rows)} in all)")
        cols = set(want[0]) if want else None
        # an episode can hold several rows with one key only when two episodes share an id
        byk = lambda rs: sorted(rs, key=lambda r: (key(r), repr(r["action"]), r["action_probability"]))
        for g, w in zip(byk(got), byk(want)):
            ctx.expect(set(g) == cols, "columns", f"{sorted(g)} want {sorted(cols)}")
            ctx.saw("row")
            ctx.saw("multi_step", int(multi is not None and w["step"] > 1))
            ctx.saw("terminal", int(not w["not_terminal"]))
            ctx.saw("custom_reward", int(custom is not None))
            for c in w:
                if c.endswith("_presence") or c not in g:
                    ctx.expect(c in g and same(g[c], w[c]), "presence" if c.endswith("_presence") else "column-missing", f"{c}: got {g.get(c)} want {w[c]}", row=w)
                    continue
                ctx.saw("cell", len(w[c]) if isinstance(w[c], list) else 1)
                ctx.expect(same(g[c], w[c]), f"value:{c}", f"{c}: got {g[c]} want {w[c]}", row=w)


def forged(rng, target):
    """An episode name whose crc32 is exactly `target` (crc32 is affine over GF(2), so 48 letter choices a/c are solved for it)."""
    head = "".join(rng.choice("xyz-_09") for _ in range(rng.randint(0, 5)))
    n = 48
    base = zlib.crc32((head + "a" * n).encode())
    rows = []  # (effect of switching letter i from a to c, which letters)
    for i in range(n):
        eff, who = zlib.crc32((head + "a" * i + "c" + "a" * (n - i - 1)).encode()) ^ base, 1 << i
        for e, w, top in rows:
            if eff >> top & 1:
                eff, who = eff ^ e, who ^ w
        if eff:
            rows.append((eff, who, eff.bit_length() - 1))
            rows.sort(key=lambda r: -r[2])
    need, pick = target ^ base, 0
    for e, w, top in rows:
        if need >> top & 1:
            need, pick = need ^ e, pick ^ w
    name = head + "".join("c" if pick >> i & 1 else "a" for i in range(n))
    assert need == 0 and zlib.crc32(name.encode()) == target
    return name


def splitting(ctx, rng):
    """The training and the evaluation part of one table never share an episode and lose none."""
    multi = rng.choice([None, 2])
    discrete = rng.random() < 0.6
    rows, names = table(rng, discrete, multi)
    for _ in range(3):
        more, _n = table(rng, discrete, multi)
        if _n == names:
            rows += more
    pct = rng.choice([20.0, 40.0, 50.0, 60.0, 80.0, rng.uniform(5, 95)])
    cut = pct / 100 * MAX
    if cut == int(cut):  # an episode whose hash falls exactly on the cut
        name = forged(rng, int(cut))
        old = rng.choice(rows)["mdp_id"]
        rows = [dict(r, mdp_id=name) if r["mdp_id"] == old else r for r in rows]
        ctx.saw("on_the_cut")
    with ctx.case("split", dict(pct=pct, n=len(rows), multi=multi, discrete=discrete)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", rows)
        kw = dict(discrete_action=discrete, include_possible_actions=discrete, multi_steps=multi, gamma=0.9)
        if discrete:
            kw["actions"] = list(names)
        a = ask(ctx, rng, "tbl", sample_range=(0.0, pct), **kw)
        b = ask(ctx, rng, "tbl", sample_range=(pct, 100.0), **kw)
        ids = {zlib.crc32(r["mdp_id"].encode()) for r in rows}
        ia, ib = {r["mdp_id"] for r in a.rows}, {r["mdp_id"] for r in b.rows}
        ctx.saw("split_episode", len(ids))
        ctx.expect(not ia & ib, "episode-in-both-parts", f"{ia & ib} at {pct}")
        ctx.expect(ia | ib == ids and len(a.rows) + len(b.rows) == len(rows), "part-lost", f"{len(a.rows)}+{len(b.rows)} of {len(rows)}")


def refusing(ctx, rng):
    rows, names = table(rng, True, None)
    what = rng.choice(["range", "no-actions", "parametric-possible", "no-gamma", "no-table"])
    with ctx.case("refuse", dict(what=what)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", rows)
        kw = dict(discrete_action=True, actions=list(names))
        if what == "range":
            kw["sample_range"] = rng.choice([(-1.0, 10.0), (20.0, 10.0), (0.0, 100.5)])
        elif what == "no-actions":
            kw["actions"] = None
        elif what == "parametric-possible":
            prow, _ = table(rng, False, None)
            ms.table("tbl", prow)
            kw = dict(discrete_action=False, include_possible_actions=True)
        elif what == "no-gamma":
            rows, names = table(rng, True, 2)
            ms.table("tbl", rows)
            kw.update(multi_steps=2, actions=list(names))
        try:
            query_data(input_table_spec=TableSpec(table_name="other" if what == "no-table" else "tbl"), **kw)
        except ms.Unsupported:
            raise
        except Exception:
            ctx.saw("refused")
            ctx.expect(not ms.SAVED, "refused-query-stored", f"{what}: {ms.SAVED}")
        else:
            ctx.expect(False, "accepted", what)


def naming(ctx, rng):
    """Two queries never share an output table, even when names are taken; and the result never overwrites a table."""
    rows, names = table(rng, True, None)
    with ctx.case("names", dict(n=len(rows))):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", rows)
        tries = [0]
        busy = rng.randint(0, 4)

        def taken(name):
            if name.startswith("tbl"):
                return False
            tries[0] += 1
            return tries[0] <= busy

        ms.COLLIDE.append(taken)
        urls = set()
        for _ in range(3):
            tries[0] = 0
            before = {k: v for k, v in ms.TABLES.items()}
            ds = query_data(input_table_spec=TableSpec(table_name="tbl"), discrete_action=True, actions=list(names))
            ctx.saw("taken_name", busy)
            ctx.expect(ds.parquet_url not in urls and all(ms.TABLES[k] is v for k, v in before.items()) and len(ms.TABLES) == len(before) + 1, "output-shared", f"{ds.parquet_url} {urls}")
            urls.add(ds.parquet_url)


def identifying(ctx, rng):
    feats = rng.sample(range(0, 80), rng.randint(1, 6))
    n = rng.randint(90, 160)
    column = rng.choice(["state_features", "action"])
    kinds = {f: rng.choice(["cont", "bin", "enum", "prob"]) for f in feats}
    draw = dict(cont=lambda: F(rng.gauss(3, 10)), bin=lambda: float(rng.randint(0, 1)), enum=lambda: float(rng.choice([1, 5, 9])), prob=lambda: F(rng.random()))
    rows = []
    for i in range(n):
        row = {}
        for c in ["state_features", "action"]:
            m = {f: draw[kinds[f]]() + (0.0 if c == column else 1000.0) for f in feats}
            row[c] = m
        rows.append(row)
    vals = {f: [r[column][f] for r in rows] for f in feats}
    take = rng.choice([n, n, rng.randint(70, n)])
    white = rng.choice([None, feats, rng.sample(feats, rng.randint(1, len(feats)))])
    over = {f: "CONTINUOUS" for f in feats if rng.random() < 0.2} or None
    opts = dict(num_samples=take, whitelist_features=white, feature_overrides=over, skip_box_cox=True, skip_quantiles=rng.random() < 0.5)
    missing = white is not None and rng.random() < 0.25
    if missing:
        opts["whitelist_features"] = white + [999]
        opts["assert_whitelist_feature_coverage"] = rng.random() < 0.5
    with ctx.case("identify", dict(feats=kinds, n=n, column=column, opts=opts)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", rows)
        seed = rng.choice([None, rng.randrange(1000)])
        po = PreprocessingOptions(**opts)
        if missing and po.assert_whitelist_feature_coverage:
            try:
                identify_normalization_parameters(TableSpec(table_name="tbl"), column, po, seed)
            except AssertionError:
                ctx.saw("refused")
                return
            ctx.expect(False, "missing-feature-accepted", "")
            return
        got = identify_normalization_parameters(TableSpec(table_name="tbl"), column, po, seed)
        params = dict(max_unique_enum_values=po.max_unique_enum_values, quantile_size=po.quantile_size, quantile_k2_threshold=po.quantile_k2_threshold, skip_box_cox=po.skip_box_cox, skip_quantiles=po.skip_quantiles, feature_overrides=over)
        ids = set(feats if white is None else white)
        ctx.expect(set(got) == ids, "features-identified", f"{sorted(got)} want {sorted(ids)}")
        for f in ids & set(got):
            ctx.saw("identified")
            g = got[f]
            if take == n:
                w = get_feature_norm_metadata(f, np.array(vals[f]), params)
                ctx.expect(repr(g) == repr(w), "parameters-differ", f"feature {f}: {g} want {w}")
            else:  # a sample: every statistic comes from this feature's own values
                if over and f in over:
                    ctx.expect(g.feature_type in (("CONTINUOUS",) if po.skip_quantiles else ("CONTINUOUS", "QUANTILE")), "override", f"{g}")
                lo, hi = min(vals[f]), max(vals[f])
                ctx.expect((g.min_value is None or g.min_value in vals[f]) and (g.max_value is None or g.max_value in vals[f]) and (g.mean in (None, 0.0) or lo - 1e-6 <= g.mean <= hi + 1e-6), "foreign-values", f"feature {f}: {g} values {lo}..{hi}")


MANAGERS = {n: a.__args__[0] for n, a in ModelManager__Union.__annotations__.items()}


def managers(ctx, rng):
    """What a model manager identifies: its configured features, from its own columns, with its options."""
    kind = rng.choice(["ParametricDQN", "ParametricDQN", "SAC", "TD3", "DiscreteDQN"])
    n = rng.randint(60, 110)
    feats = {c: rng.sample(range(0, 40), rng.randint(2, 5)) for c in ("state_features", "action")}
    kinds = {c: {f: rng.choice(["cont", "bin", "prob"]) for f in fs} for c, fs in feats.items()}
    draw = dict(cont=lambda: F(rng.gauss(3, 10)), bin=lambda: float(rng.randint(0, 1)), prob=lambda: F(rng.random()))
    rows = [{c: {f: draw[k]() for f, k in ks.items()} for c, ks in kinds.items()} for _ in range(n)]
    use = {c: rng.sample(fs, rng.randint(1, len(fs))) for c, fs in feats.items()}
    opts = {c: dict(num_samples=n, skip_box_cox=True, skip_quantiles=rng.random() < 0.5, max_unique_enum_values=rng.choice([3, 9])) for c in feats}
    ffs = {c: [(f, f"f{f}") for f in use[c]] for c in feats}
    want_override = {}
    if kind == "DiscreteDQN":
        cfg = dict(trainer_param=dict(actions=["a", "b"]), preprocessing_options=opts["state_features"], state_feature_config_provider=dict(raw=dict(float_feature_infos=[dict(name=b, feature_id=a) for a, b in ffs["state_features"]])))
    else:
        cfg = dict(state_float_features=ffs["state_features"], action_float_features=ffs["action"], state_preprocessing_options=opts["state_features"], action_preprocessing_options=opts["action"])
        if kind == "ParametricDQN":
            for c, name in (("state_features", "state"), ("action", "action")):
                if rng.random() < 0.2:  # no list of features: all of them
                    cfg[f"{name}_float_features"], use[c] = None, feats[c]
        else:
            over = rng.choice([None, "CONTINUOUS"])
            if over:
                cfg["action_feature_override"] = over
            want_override = {f: over or "CONTINUOUS_ACTION" for f in use["action"]}
    with ctx.case("manager", dict(kind=kind, n=n, use=use)):
        ms.reset(rng.randrange(1 << 30))
        ms.table("tbl", rows)
        m = ModelManager__Union(**{kind: MANAGERS[kind](**cfg)}).value
        if kind == "DiscreteDQN":
            got = m.get_data_module(input_table_spec=TableSpec(table_name="tbl")).run_feature_identification(TableSpec(table_name="tbl"))
        else:
            got = m.run_feature_identification(TableSpec(table_name="tbl"))
        columns = dict(state="state_features") if kind == "DiscreteDQN" else dict(state="state_features", action="action")
        ctx.expect(sorted(got) == sorted(columns), "keys-identified", f"{kind}: {sorted(got)}")
        for key, c in columns.items():
            have = got[key].dense_normalization_parameters
            ctx.saw("manager_columns")
            ctx.expect(set(have) == set(use[c]), "features-identified", f"{kind} {key}: {sorted(have)} want {sorted(use[c])}")
            po = PreprocessingOptions(**opts[c])
            params = dict(max_unique_enum_values=po.max_unique_enum_values, quantile_size=po.quantile_size, quantile_k2_threshold=po.quantile_k2_threshold, skip_box_cox=po.skip_box_cox, skip_quantiles=po.skip_quantiles, feature_overrides=want_override if c == "action" and want_override else None)
            for f in set(use[c]) & set(have):
                ctx.saw("manager_identified")
                w = get_feature_norm_metadata(f, np.array([r[c][f] for r in rows]), params)
                ctx.expect(repr(have[f]) == repr(w), "parameters-differ", f"{kind} {key} feature {f}: {have[f]} want {w}")
        if kind != "DiscreteDQN":
            for name in ("state", "action"):  # the features are named in one place only
                bad = dict(cfg)
                bad[f"{name}_preprocessing_options"] = dict(opts["action"], whitelist_features=[1])
                try:
                    MANAGERS[kind](**bad)
                    ctx.expect(False, "two-feature-lists-accepted", f"{kind} {name}")
                except AssertionError:
                    ctx.saw("refused")


def run(ctx):
    rng = ctx.rng
    for part, fn, q, t in [("query", querying, 500, 4000), ("split", splitting, 80, 600), ("refuse", refusing, 60, 200), ("names", naming, 12, 100), ("identify", identifying, 40, 400), ("managers", managers, 30, 300)]:
        with ctx.part(part):
            for _ in range(ctx.n(q, t)):
                fn(ctx, rng)
