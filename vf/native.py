"""Builds and drives the native serving code (serving/reagent/serving) of the working tree.

The .cpp files of core/, operators/ and cli/Server.cpp are compiled as they are, with sanitizers, against the installed
Eigen, nlohmann/json and boost and small stand-ins (native/stubs) for what is not installed. The libtorch scorer and the
command-line main are left out.
"""
import concurrent.futures
import glob
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.dirname(next(iter(importlib.util.find_spec("reagent").submodule_search_locations)))
SERVING = os.path.join(REPO, "serving")
FLAGS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
LEFT_OUT = {"PytorchActionValueScorer.cpp", "Main.cpp"}


class Died(Exception):
    """The native process ended (sanitizer report, abort, uncaught exception)."""


def sources():
    base = os.path.join(SERVING, "reagent", "serving")
    found = sorted(glob.glob(base + "/core/*.cpp") + glob.glob(base + "/operators/*.cpp") + glob.glob(base + "/cli/*.cpp"))
    return [f for f in found if os.path.basename(f) not in LEFT_OUT] + [os.path.join(ROOT, "native", "driver.cpp")]


def build(variant, into):
    """Compiles the working tree's serving code with the driver; returns the program's path."""
    flags = ["-std=c++17", "-pthread", "-w", "-I" + os.path.join(ROOT, "native", "stubs"), "-I" + SERVING,
             "-I/usr/include/eigen3"] + FLAGS[variant]
    objects = []
    env = dict(os.environ, CCACHE_DISABLE="1")
    # the common headers, compiled once
    pch = os.path.join(into, f"{variant}-pch")
    os.makedirs(pch)
    common = os.path.join(pch, "common.h")
    with open(common, "w") as f:
        f.write('#include <glog/logging.h>\n#include <Eigen/Dense>\n#include <nlohmann/json.hpp>\n#include <taskflow/taskflow.hpp>\n'
                "#include <regex>\n#include <random>\n#include <variant>\n#include <fstream>\n#include <filesystem>\n#include <iomanip>\n"
                "#include <set>\n#include <unordered_map>\n#include <sstream>\n#include <iostream>\n#include <cmath>\n#include <ctime>\n")
    run = lambda cmd: subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # noqa
    r = run(["g++", *flags, "-x", "c++-header", common, "-o", common + ".gch"])
    if r.returncode:
        raise RuntimeError("the common headers do not compile:\n" + r.stdout[-3000:])

    def one(src):
        obj = os.path.join(into, f"{variant}-" + os.path.basename(src) + ".o")
        return src, obj, run(["g++", *flags, "-include", common, "-c", src, "-o", obj])

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for src, obj, r in pool.map(one, sources()):
            if r.returncode:
                raise RuntimeError(f"{src} does not compile:\n" + r.stdout[-3000:])
            objects.append(obj)
    exe = os.path.join(into, f"driver-{variant}")
    r = run(["g++", *flags, *objects, "-o", exe, "-lboost_filesystem", "-lboost_system"])
    if r.returncode:
        raise RuntimeError("linking failed:\n" + r.stdout[-3000:])
    for o in objects:
        os.remove(o)
    shutil.rmtree(pch)
    return exe


def build_all(variants, into):
    with concurrent.futures.ThreadPoolExecutor(len(variants)) as pool:
        return dict(zip(variants, pool.map(lambda v: build(v, into), variants)))


class Native:
    """One running driver; call(cmd, **fields) returns the answer's payload or raises Refused / Died."""

    class Refused(Exception):
        pass

    def __init__(self, exe, timeout=60):
        self.exe, self.timeout, self.calls = exe, timeout, 0
        self.err = tempfile.TemporaryFile(mode="w+")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env)
        self.answers = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            self.answers.put(line)
        self.answers.put(None)

    def _report(self):
        self.err.flush()
        self.err.seek(0)
        text = self.err.read()
        keep = [ln for ln in text.splitlines() if ln.strip()]
        head = [ln for ln in keep if "ERROR" in ln or "WARNING: ThreadSanitizer" in ln or "runtime error" in ln or "FATAL" in ln
                or "terminate" in ln or "what()" in ln or "Assertion" in ln]
        frames = [ln.strip() for ln in keep if "/reagent/serving/" in ln]
        return " | ".join((head[:3] or keep[-3:]) + frames[:6])[:1500]

    def call(self, cmd, **fields):
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps({"cmd": cmd, **fields}) + "\n")
            self.p.stdin.flush()
            line = self.answers.get(timeout=self.timeout)
        except queue.Empty:
            self.p.kill()
            raise Died(f"no answer to {cmd} within {self.timeout} s")
        except BrokenPipeError:
            line = None
        if line is None:
            self.p.wait()
            raise Died(f"the native process ended with {self.p.returncode} on {cmd}: {self._report()}")
        answer = json.loads(line)
        if "error" in answer:
            raise Native.Refused(answer["error"])
        return answer["ok"]

    def close(self):
        """Ends the process; a leak or a late sanitizer report shows in its exit code."""
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(self.timeout)
            except Exception:  # noqa
                self.p.kill()
                self.p.wait()
        rc = self.p.returncode
        if rc:
            raise Died(f"the native process ended with {rc}: {self._report()}")


def constant(value):
    """A Python value as the service's tagged constant."""
    if isinstance(value, str):
        return {"string_value": value}
    if isinstance(value, int):
        return {"int_value": value}
    if isinstance(value, float):
        return {"double_value": value}
    if isinstance(value, list):
        kind = value[0] if value else 0.0
        if isinstance(kind, dict):
            return {"ranked_action_list": value}
        return {"list_string_value" if isinstance(kind, str) else "list_int_value" if isinstance(kind, int) else "list_double_value": value}
    kind = next(iter(value.values())) if value else 0.0
    if isinstance(kind, dict):
        return {"map_map_double_value": value}
    return {"map_string_value" if isinstance(kind, str) else "map_int_value" if isinstance(kind, int) else "map_double_value": value}


class Session:
    """A driver with one service on an empty configuration directory, restarted after it died."""

    def __init__(self, exe, timeout=60, **service):
        self.exe, self.timeout, self.service = exe, timeout, service
        self.native, self.number = None, 0

    def _up(self):
        if self.native is None or self.native.p.poll() is not None:
            self.native = Native(self.exe, self.timeout)
            self.names = set()
        return self.native

    def fresh(self, **service):
        """A new service in the running driver; returns its name."""
        n = self._up()
        self.number += 1
        name = f"s{self.number}"
        fields = {**self.service, **service}
        if "config_dir" not in fields:
            fields["config_dir"] = tempfile.mkdtemp(dir=".")
        n.call("service", service=name, **fields)
        self.names.add(name)
        return name

    def call(self, cmd, **fields):
        return self._up().call(cmd, **fields)

    def refused(self, cmd, **fields):
        """True if the call is refused with an error (as opposed to answered)."""
        try:
            self.call(cmd, **fields)
        except Native.Refused:
            return True
        return False

    def post(self, service, path, body):
        return self.call("post", service=service, path=path, body=body if isinstance(body, str) else json.dumps(body))

    def close(self):
        if self.native is not None and self.native.p.poll() is None:
            self.native.close()
