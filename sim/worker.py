# -*- coding: utf-8 -*-
"""
Long-lived worker: reads JSON commands from stdin, runs simulated executions,
writes JSON lines to stdout.
"""
import sys
import os
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(sys.argv[0]))
sys.path[0:0] = [here, here + "/checks"]

OUT = sys.stdout
IN = sys.stdin

import json
import time
import traceback

import seams
seams.install()
import lib
from prng import Rng, seed_of

now = seams._real["time"]


def say(**kw):
    OUT.write(json.dumps(kw) + "\n")
    OUT.flush()


_checks = {}


def check_of(name):
    if name not in _checks:
        m = __import__(name.lower())
        _checks[name] = m
        # the first run of a worker loads and compiles things
        for i in range(2):
            rng = Rng("warmup", i)
            try:
                lib.execute(m, m.gen(rng, "quick"))
            except Exception:
                pass
    return _checks[name]


def case(cmd):
    check = check_of(cmd["check"])
    i = cmd["i"]
    seed = cmd["seed"]
    rng = Rng(check.__name__, seed, i)
    plan = lib.norm(check.gen(rng, cmd["tier"]))
    say(t="start", plan=plan)
    t0 = now()
    base = lib.execute(check, plan, cmd.get("lines"))
    base["plan"] = plan
    say(t="run", i=i, k=0, r=slim(base), wall=now() - t0)
    if base["v"] or base["err"] or base["discard"]:
        say(t="done", i=i)
        return
    if hasattr(check, "faults"):
        k = 0
        for p in check.faults(rng, plan, base, cmd["tier"]):
            k += 1
            p = lib.norm(p)
            say(t="start", plan=p)
            t0 = now()
            r = lib.execute(check, p, cmd.get("lines"))
            r["plan"] = p
            say(t="run", i=i, k=k, r=slim(r), wall=now() - t0)
            if r["v"] or r["err"]:
                break
    say(t="done", i=i)


def slim(r):
    r = dict(r)
    plan = r.pop("plan", None)
    r.pop("steps", None)
    if r["v"] or r["err"]:
        r["plan"] = plan
    return r


def main():
    say(t="ready")
    while True:
        line = IN.readline()
        if not line:
            break
        cmd = json.loads(line)
        try:
            c = cmd["cmd"]
            if c == "case":
                case(cmd)
            elif c == "exec":
                check = check_of(cmd["check"])
                r = lib.execute(check, cmd["plan"], cmd.get("lines"))
                say(t="result", r=r)
            elif c == "shrink":
                check = check_of(cmd["check"])
                best, tried = lib.shrink(check, cmd["plan"], cmd["cls"],
                                         now() + cmd["secs"], now,
                                         cmd.get("lines"))
                say(t="result", plan=best, tried=tried)
            elif c == "quit":
                break
        except:
            say(t="fatal", err=traceback.format_exc())


try:
    main()
except:
    say(t="fatal", err=traceback.format_exc())
