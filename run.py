#!/usr/bin/env python3
"""
Driver of the simulation checks.

  run.py setup                 is everything there that the checks need?
  run.py check C01             run a check (VERIF_SEED, VERIF_TIER)
  run.py replay FILE           run one replay file
  run.py selftest [IDS]        determinism on a larger sample

A check generates seeded cases, runs each of them (and the fault placements
derived from it) in one of several Jython workers, minimises and replays the
first violation, and writes evidence/<id>.json.
"""
import argparse
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
sys.path.insert(0, SIM)
sys.dont_write_bytecode = True

import catalog  # noqa: E402

JARS = ":".join("/usr/share/java/%s.jar" % j
                for j in ("jython", "xercesImpl", "xml-apis"))
HANG = 60           # seconds without a word from a worker
LINES = 4000000     # line budget when a hang is suspected


def java_cmd(script):
    return ["/usr/bin/java", "-Xss8m", "-Xmx1500m", "-XX:+UseSerialGC",
            "-XX:TieredStopAtLevel=1", "-cp", JARS,
            "-Dpython.home=/usr/share/jython",
            "-Dpython.executable=/opt/jy/bin/python",
            "-Dpython.cachedir.skip=true", "-Dfile.encoding=UTF-8",
            "org.python.util.jython", "-B", script]


class Dead(Exception):
    pass


class Hung(Exception):
    pass


class Worker:
    def __init__(self):
        env = dict(os.environ)
        for k in ("PYTHONPATH", "JAVA_TOOL_OPTIONS", "CLASSPATH",
                  "PYTHONDONTWRITEBYTECODE"):
            env.pop(k, None)
        env.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                   JYTHONPATH="/opt/jy/lib",
                   DST_REPO=os.environ.get("DST_REPO", "/repo"))
        self.p = subprocess.Popen(java_cmd(os.path.join(SIM, "worker.py")),
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=env, cwd="/tmp")
        self.q = queue.Queue()
        self.err = []
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._readerr, daemon=True).start()
        m = self.get(180)
        if m.get("t") != "ready":
            raise Dead("worker did not start: %r" % (m,))

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                self.err.append(line.decode("utf-8", "replace"))
        self.q.put(None)

    def _readerr(self):
        for line in self.p.stderr:
            if len(self.err) < 200:
                self.err.append(line.decode("utf-8", "replace"))

    def get(self, timeout):
        try:
            m = self.q.get(timeout=timeout)
        except queue.Empty:
            raise Hung()
        if m is None:
            raise Dead("worker died: " + "".join(self.err[-20:]))
        return m

    def send(self, **cmd):
        try:
            self.p.stdin.write((json.dumps(cmd) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            raise Dead("worker gone: " + "".join(self.err[-20:]))

    def ask(self, timeout, **cmd):
        self.send(**cmd)
        while True:
            m = self.get(timeout)
            if m["t"] == "fatal":
                raise Dead(m["err"])
            if m["t"] == "result":
                return m

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def known_findings(pid):
    "-> [(pattern, text)] of recorded, unrepaired findings of a property"
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


class Check:

    def __init__(self, pid, tier, seed, jobs, cases=None, cap=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = catalog.CHECKS[pid]
        self.jobs = jobs
        n = self.conf["quick" if tier == "quick" else "thorough"]
        self.cases = cases or n
        self.cap = cap or (240 if tier == "quick" else 2400)
        self.lock = threading.Lock()
        self.next = 0
        self.stop = False
        self.runs = self.fault_runs = self.nontrivial = self.discards = 0
        self.hashes = {}            # (case, k) -> trace hash
        self.states = set()
        self.faults, self.probes = {}, {}
        self.steps = 0
        self.sim = 0.0
        self.violations, self.harness, self.hangs = [], [], []
        self.samples = []
        self.known = {}
        self.findings = known_findings(pid)
        self.case_wall = 0.0

    # ------------------------------------------------------------------

    def take(self):
        with self.lock:
            if self.stop or self.next >= self.cases:
                return None
            if time.time() - self.t0 > self.cap:
                return None
            self.next += 1
            return self.next - 1

    def record(self, i, k, r, plan):
        with self.lock:
            self.runs += 1
            if k:
                self.fault_runs += 1
            if r["discard"]:
                self.discards += 1
            self.hashes[(i, k)] = r["hash"]
            for n, c in r["faults"].items():
                self.faults[n] = self.faults.get(n, 0) + c
            for n, c in r["probes"].items():
                self.probes[n] = self.probes.get(n, 0) + c
            self.steps += r["nsteps"]
            self.sim += r["sim"]
            if r["nt"] and not r["discard"] and not r["err"]:
                if r["hash"] not in self.states:
                    self.nontrivial += 1
                    self.states.add(r["hash"])
            if len(self.samples) < 3 and plan is not None and \
                    (not self.samples or r["faults"] or i > self.cases // 2):
                self.samples.append({"case": i, "run": k,
                                     "plan": trim(plan),
                                     "faults_fired": r["faults"],
                                     "system_calls": r["nsteps"]})
            if r["err"]:
                self.harness.append((i, k, r["err"], r.get("plan")))
                self.stop = len(self.harness) > 3 or self.stop
            if r["v"]:
                text = "%s: %s" % tuple(r["v"])
                for pat, what in self.findings:
                    if pat.search(text):
                        self.known[what] = self.known.get(what, 0) + 1
                        return
                self.violations.append((i, k, r["v"], r["plan"], r["hash"]))
                self.stop = True

    def worker_loop(self):
        w = None
        try:
            while True:
                i = self.take()
                if i is None:
                    break
                for attempt in (1, 2):
                    plan = None
                    try:
                        if w is None:
                            w = Worker()
                        w.send(cmd="case", check=self.pid, i=i, seed=self.seed,
                               tier=self.tier)
                        while True:
                            m = w.get(HANG)
                            if m["t"] == "start":
                                plan = m["plan"]
                            elif m["t"] == "run":
                                self.record(i, m["k"], m["r"], plan)
                            elif m["t"] == "fatal":
                                with self.lock:
                                    self.harness.append((i, -1, m["err"], plan))
                                    self.stop = len(self.harness) > 3
                                break
                            elif m["t"] == "done":
                                break
                        break
                    except Hung:
                        w.kill()
                        w = None
                        with self.lock:
                            self.hangs.append((i, plan))
                        if plan is None:
                            continue
                        self.confirm_hang(i, plan)
                        break
                    except Dead as e:
                        if w is not None:
                            w.kill()
                        w = None
                        if attempt == 2:
                            with self.lock:
                                self.harness.append((i, -1, str(e), plan))
        finally:
            if w is not None:
                w.kill()

    def confirm_hang(self, i, plan):
        "deterministic confirmation: the plan exceeds its line budget"
        w = Worker()
        try:
            m = w.ask(240, cmd="exec", check=self.pid, plan=plan, lines=LINES)
            r = m["r"]
            r["plan"] = plan
            with self.lock:
                if r["v"]:
                    self.violations.append((i, 0, r["v"], plan, r["hash"]))
                    self.stop = True
        except (Hung, Dead) as e:
            with self.lock:
                self.harness.append((i, -1, "no answer even with a line "
                                     "budget: %r" % (e,), plan))
        finally:
            w.kill()

    # ------------------------------------------------------------------

    def run(self):
        self.t0 = time.time()
        ts = [threading.Thread(target=self.worker_loop)
              for _ in range(min(self.jobs, self.cases))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.search_wall = time.time() - self.t0
        mism = checked = None
        if not self.violations and not self.harness:
            checked, mism = self.redo(self.conf.get("redo", 3))
        result = None
        if self.violations:
            result = self.report()
        self.evidence(checked, mism, result)
        for what, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (self.pid, what, n))
        if result:
            print("VIOLATION property=%s replay=%s" % (self.pid, result))
            return 1
        if self.harness:
            for i, k, e, plan in self.harness[:3]:
                print("harness error in case %s run %s:\n%s" % (i, k, e),
                      file=sys.stderr)
            return 2
        if self.violations:
            print("violations did not reproduce", file=sys.stderr)
            return 2
        print("%s: ok, %d runs (%d with faults), %d distinct, %.0f s" % (
            self.pid, self.runs, self.fault_runs, self.nontrivial,
            time.time() - self.t0))
        return 0

    def redo(self, n):
        "the same seeds in another process must give the same executions"
        idx = list(range(min(n, self.next)))
        if not idx:
            return 0, []
        w = None
        checked, mism = 0, []
        try:
            w = Worker()
            for i in reversed(idx):
                w.send(cmd="case", check=self.pid, i=i, seed=self.seed,
                       tier=self.tier)
                while True:
                    m = w.get(HANG)
                    if m["t"] == "run":
                        checked += 1
                        if self.hashes.get((i, m["k"])) != m["r"]["hash"]:
                            mism.append([i, m["k"]])
                    elif m["t"] in ("done", "fatal"):
                        break
        except (Hung, Dead):
            pass
        finally:
            if w is not None:
                w.kill()
        if mism:
            print("warning: executions that did not repeat exactly: %r" % mism,
                  file=sys.stderr)
        return checked, mism

    def report(self):
        "minimise, replay in a fresh process, write the replay file"
        self.violations.sort(key=lambda v: (v[0], v[1]))
        for i, k, v, plan, h in self.violations[:4]:
            lines = LINES if v[0] == "hang" else None
            best, tried = plan, 0
            w = None
            try:
                w = Worker()
                m = w.ask(150, cmd="shrink", check=self.pid, plan=plan,
                          cls=v[0], lines=lines,
                          secs=float(os.environ.get("DST_SHRINK", 40)))
                best, tried = m["plan"], m["tried"]
            except (Hung, Dead):
                pass
            finally:
                if w is not None:
                    w.kill()
            for p in (best, plan):
                got = []
                for _ in range(2):
                    w = None
                    try:
                        w = Worker()
                        m = w.ask(240, cmd="exec", check=self.pid, plan=p,
                                  lines=lines)
                        got.append((m["r"]["v"], m["r"]["hash"]))
                    except (Hung, Dead):
                        got.append((None, None))
                    finally:
                        if w is not None:
                            w.kill()
                if got[0][0] and got[0][0][0] == v[0] and got[1][0] and \
                        got[1][0][0] == v[0]:
                    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                    name = "%s-%s-%d-%d.json" % (self.pid, self.seed, i, k)
                    path = os.path.join("replays", name)
                    with open(os.path.join(VERIF, path), "w") as f:
                        json.dump({"check": self.pid, "seed": self.seed,
                                   "case": i, "run": k, "class": v[0],
                                   "message": got[0][0][1], "lines": lines,
                                   "hash": got[0][1],
                                   "exact": got[0][1] == got[1][1],
                                   "minimiser_runs": tried,
                                   "plan": p}, f, indent=1, sort_keys=True)
                        f.write("\n")
                    print("%s: %s" % (v[0], got[0][0][1]))
                    print("seed %s case %d run %d, minimised with %d runs" % (
                        self.seed, i, k, tried))
                    return path
        return None

    def evidence(self, checked, mism, result):
        wall = time.time() - self.t0
        conf = self.conf
        hours = max(self.search_wall, 0.001) / 3600.0
        cov = {
            "evaluations": self.runs,
            "distinct_nontrivial": self.nontrivial,
            "rule": conf["rule"],
            "samples": self.samples or ["none"],
            "cases": self.next,
            "cases_planned": self.cases,
            "fault_free_runs": self.runs - self.fault_runs,
            "fault_runs": self.fault_runs,
            "runs_per_hour": int(self.runs / hours),
            "seeds_per_hour": int(self.next / hours),
            "simulated_system_calls": self.steps,
            "simulated_seconds_slept": round(self.sim, 3),
            "faults_injected": dict(sorted(self.faults.items())),
            "probes": dict(sorted(self.probes.items())),
            "distinct_executions": len(set(self.hashes.values())),
            "distinct_measure": "md5 over every system call, scheduling "
                                "decision and injected fault of a run",
            "repeat_check": {"executions_repeated_in_another_process": checked,
                             "mismatches": mism},
            "suspected_hangs": len(self.hangs),
            "harness_errors": len(self.harness),
            "real_components": conf["real"],
            "stubs": conf["stubs"],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "exploration", "coverage": cov,
              "assumptions": conf["assumptions"], "wall_s": round(wall, 2),
              "violations": 1 if result else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")


def trim(x, n=2500):
    s = json.dumps(x, sort_keys=True)
    return x if len(s) <= n else s[:n] + "..."


def replay(path):
    with open(path) as f:
        d = json.load(f)
    w = Worker()
    try:
        m = w.ask(300, cmd="exec", check=d["check"], plan=d["plan"],
                  lines=d.get("lines"))
    finally:
        w.kill()
    r = m["r"]
    if r["err"]:
        print(r["err"], file=sys.stderr)
        return 2
    if r["v"]:
        print("%s: %s" % tuple(r["v"]))
        print("same execution as recorded: %s" % (r["hash"] == d.get("hash")))
        print("VIOLATION property=%s replay=%s" % (d["check"], path))
        return 1
    print("no violation")
    return 0


def selftest(ids, n, seeds):
    "run cases twice in different processes, in different order, and compare"
    bad = 0
    for pid in ids or sorted(catalog.CHECKS):
        runs = []
        for jobs, rev in ((1, False), (1, True), (1, False)):
            hs = {}

            def go(part, rev=rev, hs=hs, pid=pid):
                w = Worker()
                try:
                    for s, i in (reversed(part) if rev else part):
                        w.send(cmd="case", check=pid, i=i, seed=s, tier="quick")
                        while True:
                            m = w.get(300)
                            if m["t"] == "run":
                                hs[(s, i, m["k"])] = m["r"]["hash"]
                            elif m["t"] in ("done", "fatal"):
                                break
                finally:
                    w.kill()
            todo = [(s, i) for s in seeds for i in range(n)]
            k = {0: 8, 1: 5, 2: 3}[len(runs)]
            ts = [threading.Thread(target=go, args=(todo[j::k],))
                  for j in range(k)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            runs.append(hs)
        diff = sorted(x for x in runs[0]
                      if any(r.get(x) != runs[0][x] for r in runs[1:]))
        print("%s: %d executions, three times: %d differ %s" % (
            pid, len(runs[0]), len(diff), diff[:5]))
        sys.stdout.flush()
        bad += len(diff)
    return 1 if bad else 0


def setup():
    w = Worker()
    try:
        m = w.ask(120, cmd="exec", check="C01", plan={})
    finally:
        w.kill()
    print("worker answers:", m["t"])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--cap", type=int)
    a = ap.parse_args()
    if a.cmd == "check":
        rc = 0
        for pid in a.args:
            rc = max(rc, Check(pid, a.tier, a.seed, min(a.jobs, 16), a.cases,
                               a.cap).run())
            sys.stdout.flush()
        return rc
    if a.cmd == "replay":
        return replay(a.args[0])
    if a.cmd == "selftest":
        return selftest(a.args, a.cases or 12, [a.seed, a.seed + 1])
    if a.cmd == "setup":
        return setup()
    ap.error("unknown command")


if __name__ == "__main__":
    sys.exit(main())
