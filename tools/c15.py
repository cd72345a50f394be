#!/usr/bin/env python3
"""C15: the workloads under Miri, AddressSanitizer with LeakSanitizer, ThreadSanitizer, and the object accounting.

Usage: c15.py build | c15.py quick|thorough <seed> <seconds>
Exit codes: 0 - no report, 1 - a report (with a VIOLATION line), 2 - no answer.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HARNESS = "/verif/harness"
TARGET = HARNESS + "/target"
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "MIRIFLAGS", "RUST_LOG", "CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG")}
ENV.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly", CARGO_PROFILE_DEV_OPT_LEVEL="0")
ENV["PATH"] += ":/root/.cargo/bin:/usr/local/cargo/bin"
ALL = "ub,mistake,ext,chain-hostile,sim-equivocate,sim-local,mistake,sim-packs,chain-local,ub,sim-content,chain-content,evid,fuzz,sim-honest,sim-spoof,ext,sim-lossy"


def env(tool, **more):
    e = dict(ENV, CARGO_TARGET_DIR=f"{TARGET}/{tool}", **more)
    if tool == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address -Awarnings"
        e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=99:halt_on_error=1"
    elif tool == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Awarnings"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    else:
        e["RUSTFLAGS"] = "-Awarnings"
        e["MIRIFLAGS"] = more.get("MIRIFLAGS", "-Zmiri-disable-isolation")
    return e


def build_cmd(tool):
    if tool == "asan":
        return ["cargo", "build", "--offline", "--quiet", "--target", TRIPLE]
    if tool == "tsan":
        return ["cargo", "build", "--offline", "--quiet", "-Zbuild-std", "--target", TRIPLE]
    # Does nothing, but everything is compiled
    return ["cargo", "miri", "run", "--offline", "--quiet", "--", "soak", "ub", "0", "0"]


def build():
    """Returns the tools which are available, and the output of those that are not."""
    running = {}
    for tool in ("asan", "tsan", "miri"):
        out = tempfile.TemporaryFile("w+")
        running[tool] = (subprocess.Popen(build_cmd(tool), cwd=HARNESS, env=env(tool), stdout=out, stderr=out), out)
    failed = {}
    for tool, (p, out) in running.items():
        if p.wait() != 0:
            out.seek(0)
            failed[tool] = out.read()[-3000:]
    return failed


def seed_for(*x):
    return int.from_bytes(hashlib.sha256(repr(x).encode()).digest()[:6], "big")


class Worker:
    def __init__(self, tool, k, seed, secs, dir, until):
        self.tool, self.k, self.seed, self.secs, self.dir, self.until = tool, k, seed, secs, dir, until
        self.round = 0
        self.results, self.reports, self.notes = [], [], []
        self.leaks = True
        self.start()

    def start(self):
        left = self.until - time.time()
        self.from_ = seed_for(self.seed, self.tool, self.k, self.round)
        self.state = f"{self.dir}/{self.tool}-{self.k}-{self.round}.state"
        self.traces = f"{self.dir}/{self.tool}-{self.k}-{self.round}.traces"
        soak = lambda units, secs: ["soak", units, str(self.from_), str(int(secs)), "--state", self.state, "--traces", self.traces]
        limit = left
        if self.tool == "asan":
            units = ALL.split(",")
            i = self.round * 5 + self.k * 7
            units = ",".join(units[i % len(units):] + units[:i % len(units)])
            # Leaks are looked for at the end of the process
            cmd = [f"{TARGET}/asan/{TRIPLE}/debug/harness", *soak(units, min(left, 30))]
            e = env("asan")
            if not self.leaks:
                e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        elif self.tool == "tsan":
            exe = f"{TARGET}/tsan/{TRIPLE}/debug/harness"
            if self.k % 2 == 0:
                with open(self.state, "w") as f:
                    json.dump({"workload": "async", "seed": self.from_}, f)
                cmd = [exe, "async-child", str(self.from_), "12"]
            else:
                cmd = [exe, *soak("ub,ub,ub,mistake,ub,ext", min(left, 30))]
            e = env("tsan")
        else:
            flags = f"-Zmiri-disable-isolation -Zmiri-seed={self.from_ % 1000000}"
            if self.k % 2:
                flags += " -Zmiri-tree-borrows"
            if self.k % 4 >= 2:
                flags += " -Zmiri-preemption-rate=0.1"
            cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--", *soak("ub", left)]
            e = env("miri", MIRIFLAGS=flags)
        self.cmd = cmd
        self.env = {k: e[k] for k in ("RUSTFLAGS", "MIRIFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", "CARGO_TARGET_DIR") if k in e}
        self.out = tempfile.TemporaryFile("w+")
        self.err = tempfile.TemporaryFile("w+")
        self.kill_at = time.time() + limit + (150 if self.tool == "miri" else 90)
        self.p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=self.out, stderr=self.err, start_new_session=True)

    def read(self, f):
        f.seek(0)
        return f.read()

    def report(self, kind, text):
        try:
            case = json.load(open(self.state))
        except (OSError, ValueError):
            case = {}
        self.reports.append({"tool": self.tool, "kind": kind, "text": text[:6000], "cmd": self.cmd, "env": self.env, **case})

    def poll(self):
        """Returns whether the worker is still running."""
        code = self.p.poll()
        if code is None:
            if time.time() > self.kill_at:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.notes.append(f"{self.tool}: no answer in time from {' '.join(self.cmd)}, {self.state_text()}")
                return False
            return True
        out, err = self.read(self.out), self.read(self.err)
        self.out.close()
        self.err.close()
        kind = None
        if m := re.search(r"(ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer: detected memory leaks|WARNING: ThreadSanitizer: [^\n]*)", err):
            kind, at = m.group(1), m.start()
        elif m := re.search(r"^error: (Undefined Behavior[^\n]*|memory leaked[^\n]*|deadlock[^\n]*)", err, re.M):
            kind, at = m.group(1), m.start()
        if kind:
            self.report(kind, err[at:])
            return False
        if self.tool == "asan" and "LeakSanitizer has encountered a fatal error" in err and self.leaks:
            self.notes.append("LeakSanitizer does not work here")
            self.leaks = False
            code = 0
        docs = [l[5:] if l.startswith("SOAK ") else l for l in out.splitlines() if l.startswith(("SOAK {", '{"'))]
        if code < 0 and -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT):
            self.report(f"killed by signal {-code}", err[-3000:])
            return False
        if code != 0 or not docs:
            self.notes.append(f"{self.tool}: exit {code} of {' '.join(self.cmd)}, {self.state_text()}: {err[-1500:]}")
            return False
        doc = json.loads(docs[-1])
        if "viol" in doc:
            n = doc["stats"].get("cases", 0)
            doc = {
                "evaluations": n,
                "traces": doc["traces"],
                "runs_per_workload": {"async": n},
                "events_observed": doc["stats"],
                "samples": [],
                "violations": [{"workload": "async", "seed": self.from_, "text": t} for p, t in doc["viol"] if p == "C15"],
                "violations_of_other_properties": {},
                "errors": [doc["error"]] if doc["error"] else [],
            }
        else:
            try:
                doc["traces"] = [int(x, 16) for x in open(self.traces).read().split()]
            except OSError:
                doc["traces"] = []
        self.results.append(doc)
        if doc["violations"]:
            for v in doc["violations"]:
                self.reports.append({"tool": self.tool, "kind": "object accounting", "cmd": self.cmd, "env": self.env, **v})
            return False
        self.round += 1
        if self.tool != "miri" and time.time() < self.until - 3:
            self.start()
            return True
        return False

    def state_text(self):
        try:
            return open(self.state).read()
        except OSError:
            return "at the start"


def check(tier, seed, secs):
    began = time.time()
    failed = build()
    for tool, text in failed.items():
        print(f"{tool}: the harness does not build: {text}")
    if failed:
        return 2
    built = time.time()
    dir = tempfile.mkdtemp(prefix="c15-")
    until = time.time() + secs
    workers = []
    try:
        for tool, n in (("miri", 4), ("asan", 2), ("tsan", 2)):
            for k in range(n):
                workers.append(Worker(tool, k, seed, secs, dir, until))
        active = list(workers)
        while active:
            active = [w for w in active if w.poll()]
            if any(w.reports for w in workers):
                break
            time.sleep(0.2)
    finally:
        for w in workers:
            if w.p.poll() is None:
                os.killpg(w.p.pid, signal.SIGKILL)
                w.p.wait()
        shutil.rmtree(dir, ignore_errors=True)
    total, units, per_tool, traces, samples, other, errors = {}, {}, {}, set(), [], {}, []
    evaluations = 0
    for w in workers:
        for d in w.results:
            evaluations += d["evaluations"]
            t = per_tool.setdefault(w.tool, {"processes": 0, "executions": 0})
            t["processes"] += 1
            t["executions"] += d["evaluations"]
            for k, v in d["events_observed"].items():
                total[k] = total.get(k, 0) + v
            for k, v in d["runs_per_workload"].items():
                units.setdefault(w.tool, {})
                units[w.tool][k] = units[w.tool].get(k, 0) + v
            for k, v in d["violations_of_other_properties"].items():
                other[k] = other.get(k, 0) + v
            traces.update((w.tool, x) for x in d["traces"])
            if len(samples) < 5:
                samples += [dict(s, tool=w.tool) for s in d["samples"][:1]]
            errors += d["errors"]
    notes = [n for w in workers for n in w.notes]
    reports = [r for w in workers for r in w.reports]
    code = 0
    for i, r in enumerate(reports[:5]):
        path = f"/verif/replays/C15-{r['tool']}-{seed}-{i}.json"
        os.makedirs("/verif/replays", exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": "C15", **r, "violations": [r["kind"]]}, f, indent=1)
        print(f"VIOLATION property=C15 replay={path}")
        print(f"  {r['tool']}: {r['kind']}: {r['text'][:400]}")
        code = 1
    for n in notes:
        print(f"note: {n}")
    for k, v in other.items():
        print(f"note: {v} violation(s) of {k} observed in passing")
    for e in errors[:5]:
        print(f"harness error: {e}")
    must = ["driven: threads", "driven: tasks", "evidence_verified", "extended_executions", "zero_sized_executions", "chains"]
    missing = [m for m in must if not total.get(m)] + [t for t in ("miri", "asan", "tsan") if not per_tool.get(t)]
    if code == 0 and missing:
        print(f"inconclusive: never observed {missing}")
        code = 2
    doc = {
        "property": "C15",
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(traces),
            "rule": "each case is a complete multi-party execution of a small protocol (all combinations of message kinds including zero-sized ones, chains, extensions overriding nothing or misbehaving, failures, cancellation; driven by the synchronous runner, the asynchronous runners on one or several threads, or with every message created and processed by a thread of its own, evidence verified and transferred) interpreted by Miri (half of the processes with tree borrows, varying thread schedules) or compiled with AddressSanitizer and LeakSanitizer, or ThreadSanitizer, the latter two also with the workloads of the other properties; the objects handed over to the library are counted and checked; distinct = different hash of the actions and the protocol, per tool; non-trivial = objects were accounted for",
            "samples": samples,
            "per_tool": per_tool,
            "runs_per_workload": units,
            "events_observed": total,
            "notes": notes,
            "violations_of_other_properties": other,
            "build_s": round(built - began, 1),
        },
        "assumptions": ["the tools report all the errors of the kinds they look for in the executions observed"],
        "wall_s": time.time() - began,
        "violations": len(reports),
    }
    os.makedirs("/verif/evidence", exist_ok=True)
    with open("/verif/evidence/C15.json", "w") as f:
        json.dump(doc, f, indent=1)
    print(f"C15 {tier}: {per_tool}, {len(traces)} distinct, built in {built - began:.0f} s, {time.time() - began:.0f} s, exit {code}")
    return code


if __name__ == "__main__":
    if sys.argv[1] == "build":
        failed = build()
        for tool, text in failed.items():
            print(f"{tool}: {text}")
        sys.exit(2 if failed else 0)
    sys.exit(check(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])))
