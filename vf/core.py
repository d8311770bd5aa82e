"""Shared runner for the runtime monitors.

A check is a module checks/<PID>.py with
    RULE      : how executions are produced and what makes one non-trivial
    REQUIRED  : {counter: minimum} -- monitor events that must have been seen, or the
                run is inconclusive (exit 3), never "held"
    run(ctx)  : drives the real code and reports what the oracle saw

Three-valued verdict: exit 0 held on everything observed, exit 1 + VIOLATION line,
exit 3 inconclusive (the deciding monitor was not reached), exit 2 harness error.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORTED = 12


class Abort(Exception):
    """Raised to leave a case after its oracle already reported a violation."""


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:  # noqa
        s = f"<unprintable {type(x)}: {e}>"
    return s if len(s) <= n else s[: n - 20] + f"...[{len(s)} chars]"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}:{seed}")
        self.counters = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_seen = {}
        self.known = load_known(pid)
        self.t0 = time.time()
        self.case_stack = []
        self.only = os.environ.get("VERIF_ONLY")  # debugging aid: run one part
        self.part_times = {}

    # ------------------------------------------------------------ generation
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def sub(self, label):
        """An independent generator stream, so widening one part does not move others."""
        return random.Random(f"{self.pid}:{self.seed}:{label}")

    def nprng(self, label):
        import numpy as np

        return np.random.default_rng(self.sub(label).getrandbits(63))

    def seed_all(self, label):
        """Seed numpy/torch/random globals for code under test that draws from them."""
        h = int(hashlib.sha256(f"{self.pid}:{self.seed}:{label}".encode()).hexdigest()[:8], 16)
        random.seed(h)
        try:
            import numpy as np

            np.random.seed(h % (2 ** 32))
        except ImportError:
            pass
        try:
            import torch

            torch.manual_seed(h)
        except ImportError:
            pass
        return h

    @contextlib.contextmanager
    def part(self, name):
        t = time.time()
        try:
            yield
        finally:
            self.part_times[name] = round(time.time() - t, 2)

    # ------------------------------------------------------------ observation
    @contextlib.contextmanager
    def case(self, kind, desc=None, distinct=None, trivial=False):
        """One execution of the code under test. An exception that the valid workload
        was not supposed to provoke is an observation against the property."""
        self.evaluations += 1
        self.counters["case:" + kind] += 1
        if not trivial:
            key = distinct if distinct is not None else desc
            self.distinct.add(hashlib.sha1(f"{kind}|{key!r}".encode()).hexdigest()[:16])
        if sum(1 for s in self.samples if s["kind"] == kind) < 2 and len(self.samples) < 60:
            self.samples.append({"kind": kind, "case": short(desc, 300)})
        self.case_stack.append((kind, desc))
        try:
            yield
        except Abort:
            pass
        except Exception as e:
            tb = traceback.format_exc()
            self._report(
                f"raised:{kind}:{type(e).__name__}",
                f"{type(e).__name__}: {short(str(e), 300)}",
                {"traceback": tb.splitlines()[-12:]},
            )
        finally:
            self.case_stack.pop()

    def saw(self, event, k=1):
        self.counters[event] += int(k)

    def expect(self, ok, mech, msg="", **witness):
        """The oracle's verdict on one observation. `mech` names the mechanism (stable
        across seeds); it is what known findings are keyed on."""
        self.counters["oracle:" + mech] += 1
        if not ok:
            self._report(mech, msg, witness)
        return bool(ok)

    def require(self, ok, mech, msg="", **witness):
        if not self.expect(ok, mech, msg, **witness):
            raise Abort()

    def close(self, got, want, mech, rtol=1e-4, atol=1e-5, msg="", **witness):
        import numpy as np

        def arr(x):
            if hasattr(x, "detach"):
                x = x.detach().cpu().double().numpy() if x.dtype.is_floating_point or x.dtype.is_complex else x.detach().cpu().numpy()
            return np.asarray(x, dtype=np.float64)

        try:
            g, w = arr(got), arr(want)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
            if ok is False and g.shape == w.shape:
                bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
                witness["first_bad"] = [int(i) for i in np.argwhere(np.atleast_1d(bad))[0]]
        except (TypeError, ValueError) as e:
            ok, g, w = False, got, want
            witness["compare_error"] = str(e)
        if ok:
            return self.expect(True, mech)
        return self.expect(ok, mech, msg or f"got {short(g,250)} want {short(w,250)}", got=short(g, 400), want=short(w, 400), **witness)

    def _report(self, mech, msg, witness):
        if mech in self.known:
            self.known_seen.setdefault(mech, short(msg, 200))
            return
        v = {
            "mechanism": mech,
            "message": short(msg, 800) if not isinstance(msg, str) else msg[:800],
            "case": [{"kind": k, "case": short(d, 2500)} for k, d in self.case_stack],
            "witness": {k: (v if isinstance(v, (int, float, str, list, dict, type(None))) else short(v, 2000)) for k, v in witness.items()},
        }
        self.violations.append(v)

    # ------------------------------------------------------------ verdict
    def finish(self, mod):
        wall = round(time.time() - self.t0, 2)
        required = dict(getattr(mod, "REQUIRED", {}))
        missing = {k: v for k, v in required.items() if self.counters.get(k, 0) < v}
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": mod.RULE,
                "samples": self.samples,
                "observed": dict(sorted(self.counters.items())),
                "required_observations": required,
                "part_seconds": self.part_times,
                "known_findings_seen": self.known_seen,
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": wall,
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for mech, text in self.known.items():
            if mech in self.known_seen:
                print(f"KNOWN-FINDING: property={self.pid} {mech}: {text}")
        if self.violations:
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            by = collections.OrderedDict()
            for v in self.violations:
                by.setdefault(v["mechanism"], []).append(v)
            for i, (mech, vs) in enumerate(by.items()):
                if i >= MAX_REPORTED:
                    break
                path = os.path.join(rdir, f"{self.pid}-{i}.json")
                with open(path, "w") as f:
                    json.dump(
                        {
                            "property": self.pid,
                            "replay": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check {self.pid}",
                            "mechanism": mech,
                            "occurrences": len(vs),
                            "first": vs[0],
                            "more": vs[1:4],
                        },
                        f,
                        indent=1,
                        default=str,
                    )
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  {mech} (x{len(vs)}): {vs[0]['message'][:300]}")
            return 1
        if missing:
            print(f"INCONCLUSIVE property={self.pid} deciding observations missing: {missing}")
            return 3
        print(
            f"HELD property={self.pid} tier={self.tier} seed={self.seed} executions={self.evaluations} "
            f"distinct={len(self.distinct)} oracle_checks={sum(v for k, v in self.counters.items() if k.startswith('oracle:'))} wall={wall}s"
        )
        return 0


def load_known(pid):
    """known_findings.json: {"findings": [{"property","mechanism","what"}], "fixed": [...]}.
    Read only; nothing is ever added at run time."""
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {e["mechanism"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, ROOT)
    scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    os.environ["VERIF_SCRATCH"] = scratch
    os.chdir(scratch)
    try:
        mod = importlib.import_module(f"checks.{pid}")
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: harness could not be imported")
        sys.stdout.flush()
        os._exit(2)
    ctx = Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
        rc = ctx.finish(mod)
    except Exception:
        traceback.print_exc()
        rc = ctx.finish(mod) if ctx.violations else 2
        print(f"ERROR property={pid}: harness error")
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
