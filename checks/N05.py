"""N05: decisions served and fed back become exactly the training rows they describe."""
import vf.quiet  # noqa
import collections
import http.server
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import threading

import pandas as pd

from checks.N02 import config
from checks.N03 import REWARDS, metrics, normal_feedback, text
from vf import native


RULE = ("The log a native service writes (ASan+UBSan build, random plans, requests, feedbacks in any order) and logs composed in the same format are converted by the "
        "shipped converter; every row is compared with the request sent, the answer received and the feedback given, in log order. The shipped customer "
        "simulator then runs against the shipped plans over a loopback relay that records every exchange: each customer must be one request and one feedback "
        "for the action served, the log and the converted table must hold exactly those, and the simulator's own totals must be those of the table. "
        "Non-trivial = at least one row.")
REQUIRED = {"rows": 600, "served_rows": 60, "composed_rows": 300, "several_actions": 60, "no_context": 10, "repeated_ids": 5, "as_a_command": 2, "customers": 900, "plans_served": 2, "rib_lovers": 40}
ASSUMPTIONS = ["one feedback action per decision, for the first action chosen", "context feature names are integers, as the converter requires"]

REPO = native.REPO
SCRIPT = os.path.join(REPO, "serving/scripts/rasp_to_model.py")
SIMULATOR = os.path.join(REPO, "serving/examples/ecommerce/customer_simulator.py")
PLANS = os.path.join(REPO, "serving/examples/ecommerce/plans")


def convert(ctx, src, dst, command=False):
    if command:
        p = subprocess.run([sys.executable, SCRIPT, src, dst], capture_output=True, text=True, timeout=120)
        ctx.require(p.returncode == 0, "converter-runs", f"the converter ended with {p.returncode}: {p.stderr[-300:]}")
        ctx.saw("as_a_command")
    else:
        old = sys.argv
        sys.argv = [SCRIPT, src, dst]
        try:
            runpy.run_path(SCRIPT, run_name="__main__")
        except SystemExit as e:
            ctx.require(not e.code, "converter-runs", f"{e}")
        finally:
            sys.argv = old
    return pd.read_pickle(dst)


def compare(ctx, df, records):
    """records: (request, answer, feedback) in log order, as sent and received"""
    ctx.require(len(df) == len(records), "one-row-per-decision", f"{len(df)} rows for {len(records)} joined decisions")
    ids = {}
    for i, (req, ans, fb) in enumerate(records):
        row = df.iloc[i]
        ctx.saw("rows")
        want = {
            "sequence_number": 0,
            "state_features": {int(k): v for k, v in req.get("context_features", {}).items()},
            "action": ans["actions"][0]["name"],
            "reward": fb["actions"][0]["computed_reward"],
            "action_probability": ans["actions"][0]["propensity"],
            "possible_actions": req["actions"]["names"],
            "metrics": fb["actions"][0]["metrics"],
        }
        for k, w in want.items():
            g = row[k]
            if isinstance(w, float):
                ok = abs(g - w) <= 1e-12 * max(1, abs(w))
            else:
                ok = (dict(g) if isinstance(w, dict) else list(g) if isinstance(w, list) else g) == w
                if isinstance(w, dict):
                    ok = ok and all(type(k2) in (int, str) for k2 in g)
            ctx.expect(ok, k, f"row {i}: {k} is {g!r}, the log says {w!r}")
        rid = ans["request_id"]
        ctx.saw("several_actions", len(req["actions"]["names"]) > 1)
        ctx.saw("no_context", not req.get("context_features"))
        ctx.saw("repeated_ids", rid in ids)
        ctx.expect(ids.setdefault(rid, row["mdp_id"]) == row["mdp_id"], "episode-id", f"one request id, two episode ids: {rid!r}")
    ctx.expect(len(set(ids.values())) == len(ids), "episode-id-distinct", f"{len(ids)} request ids share {len(set(ids.values()))} episode ids")


def context(rng):
    return {str(k): rng.choice([0.0, 1.0, -2.5, rng.gauss(0, 3)]) for k in rng.sample(range(0, 500), rng.choice([0, 1, 2, 4]))}


def composed(ctx):
    rng = ctx.sub("composed")
    for i in range(ctx.n(60, 600)):
        n = rng.choice([1, 2, 5, 20, 40])
        with ctx.case("composed", (i, n)):
            records = []
            for j in range(n):
                names = [f"{text(rng)}{k}" for k in range(rng.randint(1, 4))]
                rid = f"r{rng.randrange(n)}" if rng.random() < 0.2 else f"id {j} {text(rng)}"
                order = rng.sample(names, len(names))
                req = {"request_id": rid, "plan_name": "p", "meta_data": None, "actions": {"names": names, "features": {}}, "context_features": context(rng), "input": {"string_value": ""}}
                ans = {"request_id": rid, "plan_name": "p", "duration": rng.randrange(1000), "actions": [{"name": a, "propensity": rng.random()} for a in order]}
                fb = {"request_id": rid, "plan_name": "p", "computed_reward": 100.0 + j, "actions": [{"name": order[0], "metrics": metrics(rng), "computed_reward": rng.gauss(0, 1)}]}
                records.append((req, ans, fb))
            with open("in.log", "w", encoding="utf-8") as f:
                f.write("\n".join(json.dumps({"decision_request": r, "decision_response": a, "operator_outputs": {}, "feedback": b}, ensure_ascii=rng.random() < 0.5) for r, a, b in records) + rng.choice(["", "\n"]))
            before = open("in.log", "rb").read()
            df = convert(ctx, "in.log", "out.pkl", command=i == 0)
            compare(ctx, df, records)
            ctx.saw("composed_rows", n)
            ctx.expect(open("in.log", "rb").read() == before, "log-untouched", "the converter changed the log")


def served(ctx, s):
    rng = ctx.sub("served")
    for i in range(ctx.n(12, 60)):
        path = os.path.join(os.getcwd(), f"served{i}", "log.txt")
        function = rng.choice(["score", "score * 2 - bias", "-score"])
        with ctx.case("served", (i, function)):
            svc = s.fresh(log_path=path)
            ops = [{"name": "rank", "op_name": "SoftmaxRanker", "input_dep_map": {"temperature": "t", "values": "v"}}]
            s.call("plan", service=svc, name="p", config=config(ops, {"t": rng.choice([0.5, 1.0, 3.0]), "v": {"a": 0.5, "b": -0.25, "é c": 1.0}}, function, "sum"))
            waiting, records = [], []
            for j in range(rng.randint(20, 50)):
                if waiting and rng.random() < 0.45:
                    req, ans = waiting.pop(rng.randrange(len(waiting)))
                    fb = {"plan_name": "p", "request_id": ans["request_id"], "actions": [{"name": ans["actions"][0]["name"], "metrics": metrics(rng)}]}
                    got = s.post(svc, "/api/feedback", fb)
                    ctx.require(got["status"] == 200, "takes-feedback", f"{got}")
                    records.append((req, ans, normal_feedback(fb, function, "sum")[0]))
                else:
                    req = {"plan_name": "p", "actions": {"names": rng.sample(["a", "b", "é c"], 3)}, "context_features": context(rng)}
                    got = s.post(svc, "/api/request", req)
                    ctx.require(got["status"] == 200, "takes-request", f"{got}")
                    waiting.append((req, json.loads(got["body"])))
            s.call("close", service=svc)
            if records:
                compare(ctx, convert(ctx, path, "served.pkl", command=i == 0), records)
                ctx.saw("served_rows", len(records))
            shutil.rmtree(os.path.dirname(path), ignore_errors=True)


# the simulator always talks to port 3000; its requests are redirected to the relay's own port
LAUNCH = """
import runpy, sys, urllib.request
_R, _port = urllib.request.Request, ":%s" % sys.argv[2]
urllib.request.Request = lambda url, *a, **k: _R(url.replace(":3000", _port), *a, **k)
sys.argv = [sys.argv[1], sys.argv[3]]
runpy.run_path(sys.argv[0], run_name="__main__")
"""


def simulator(ctx, s):
    rng = ctx.sub("simulator")
    for plan in (rng.choice(["heuristic.json", "multi_armed_bandit.json"]),) if not ctx.thorough else ("heuristic.json", "multi_armed_bandit.json"):
        with ctx.case("simulator", plan):
            shutil.rmtree("plans", ignore_errors=True)
            shutil.copytree(PLANS, "plans")
            path = os.path.join(os.getcwd(), "sim-" + plan, "log.txt")
            svc = s.fresh(log_path=path, config_dir=os.path.join(os.getcwd(), "plans"))
            exchanges, lock = [], threading.Lock()

            class Relay(http.server.BaseHTTPRequestHandler):
                def do_POST(self):
                    body = self.rfile.read(int(self.headers["Content-Length"])).decode()
                    with lock:
                        got = s.post(svc, self.path, body)
                        exchanges.append((self.path, json.loads(body), got))
                    out = got["body"].encode()
                    self.send_response(got["status"])
                    self.send_header("Content-Length", str(len(out)))
                    self.end_headers()
                    self.wfile.write(out)

                def log_message(self, *a):
                    pass

            class Server(http.server.ThreadingHTTPServer):
                request_queue_size = 256

            srv = Server(("127.0.0.1", 0), Relay)
            threading.Thread(target=srv.serve_forever, daemon=True).start()
            try:
                env = {k: v for k, v in os.environ.items() if "proxy" not in k.lower()}
                p = subprocess.run([sys.executable, "-c", LAUNCH, SIMULATOR, str(srv.server_port), plan], capture_output=True, text=True, timeout=300, env=env)
            finally:
                srv.shutdown()
                srv.server_close()
            s.call("close", service=svc)
            ctx.require(p.returncode == 0, "simulator-runs", f"{p.returncode}: {p.stderr[-300:]}")
            requests = {}
            records = []
            for where, body, got in exchanges:
                ctx.require(got["status"] == 200, "served", f"{where} {body} was answered {got}")
                if where == "/api/request":
                    ans = json.loads(got["body"])
                    requests[ans["request_id"]] = (body, ans)
                    ctx.expect(body["plan_name"] == plan and len(ans["actions"]) >= 1 and set(body["actions"]["names"]) == {"Bacon", "Ribs"}, "customer-request", f"{body} -> {ans}")
                    ctx.saw("rib_lovers", body["context_features"]["0"] == 1.0)
                else:
                    ctx.require(body["request_id"] in requests, "feedback-for-a-request", f"{body}")
                    req, ans = requests.pop(body["request_id"])
                    a = body["actions"]
                    ctx.expect(len(a) == 1 and a[0]["name"] == ans["actions"][0]["name"], "feedback-for-the-action-served", f"{a} after {ans}")
                    ctx.expect(a[0]["metrics"]["reward"] in (0.0, 1.0), "click", f"{a}")
                    records.append((req, ans, {"actions": [{**a[0], "computed_reward": a[0]["metrics"]["reward"]}]}))
            ctx.saw("customers", len(records))
            ctx.saw("plans_served", 2)
            ctx.expect(not requests, "customer-without-feedback", f"{len(requests)} requests were never fed back")
            lines = [json.loads(ln) for ln in open(path, encoding="utf-8")]
            ctx.require([ln["feedback"]["request_id"] for ln in lines] == [r[1]["request_id"] for r in records], "log-order", f"{len(lines)} lines, {len(records)} customers")
            df = convert(ctx, path, "sim.pkl")
            compare(ctx, df, records)
            avg = float(re.search(r"Average reward: (\S+)", p.stdout).group(1))
            ctx.expect(abs(avg - df["reward"].mean()) < 1e-9, "simulator-average", f"simulator says {avg}, the table {df['reward'].mean()}")
            hist = eval(re.search(r"Action Distribution: (.*)", p.stdout).group(1), {})
            ctx.expect(hist == dict(collections.Counter(df["action"])), "simulator-distribution", f"simulator says {hist}, the table {dict(collections.Counter(df['action']))}")
            # propensities logged are those of the plan's softmax over its declared values
            for name, g in df.groupby("action"):
                ctx.expect(plan != "heuristic.json" or g["action_probability"].nunique() == 1, "propensity-of-a-fixed-plan", f"{name}: {g['action_probability'].unique()[:4]}")


def run(ctx):
    s = native.Session(native.build_all(["asan"], ".")["asan"])
    with ctx.part("composed"):
        composed(ctx)
    for f in (served, simulator):
        with ctx.part(f.__name__):
            f(ctx, s)
    with ctx.case("end", "the driver ends without a sanitizer report", trivial=True):
        s.close()
