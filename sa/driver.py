"""Runs the obligations of one property, every one in its own limited child process, and reports."""
from __future__ import annotations

import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = {"quick": 200, "thorough": 600}      # wall seconds of one obligation
TOTAL = 780                                   # wall seconds of a whole check
MEM = 4 << 30
JOBS = 7


def load_rules():
    sys.path.insert(0, HERE)
    for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("rules." + f[:-3])
    from rules import PROPERTIES
    return PROPERTIES


def child(oid, root, w, tier):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    signal.alarm(0)
    try:
        from .check import AnalysisBroken
        from .check import run_one
        sys.setrecursionlimit(20000)
        if tier == "thorough":
            from . import refute
            refute.SECONDS, refute.BUDGET = 80.0, 400.0
        try:
            r = run_one(oid, root)
            msg = {"status": r.status, "findings": [f.as_dict() for f in r.findings], "undecided": r.undecided,
                   "functions": sorted(r.functions), "facts": r.facts, "samples": r.samples, "seconds": r.seconds}
        except AnalysisBroken as e:
            msg = {"status": "broken", "error": str(e)}
        except (MemoryError, RecursionError) as e:
            msg = {"status": "undecided", "undecided": [f"resource limit: {type(e).__name__}"]}
        except Exception as e:  # noqa: BLE001   a construct the engine does not handle
            import traceback
            msg = {"status": "undecided", "undecided": [f"internal: {type(e).__name__}: {e}"],
                   "trace": traceback.format_exc()[-1500:]}
        with os.fdopen(w, "wb") as f:
            pickle.dump(msg, f)
    finally:
        os._exit(0)


def run_obligations(oids, root="/repo", tier="quick", jobs=JOBS):
    from .check import project
    project(root)      # parse once, before forking
    todo = list(oids)
    running = {}
    out = {}
    start = time.time()
    while todo or running:
        if todo and not running and time.time() - start > TOTAL:
            out.update((o, {"status": "undecided", "undecided": ["time limit of the check"], "wall": 0.0}) for o in todo)
            break
        while todo and len(running) < jobs and time.time() - start <= TOTAL:
            o = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(o, root, w, tier)
            os.close(w)
            running[r] = (o, pid, time.time(), [])
        ready, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in list(running):
            o, pid, t0, buf = running[fd]
            done = False
            if fd in ready:
                d = os.read(fd, 1 << 16)
                if d:
                    buf.append(d)
                else:
                    done = True
            elif now - t0 > LIMIT[tier] or now - start > TOTAL:
                os.kill(pid, signal.SIGKILL)
                buf[:] = [pickle.dumps({"status": "undecided", "undecided": [f"time limit {LIMIT[tier]} s"]})]
                done = True
            if done:
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                try:
                    m = pickle.loads(b"".join(buf))
                except Exception:  # noqa: BLE001
                    m = {"status": "undecided", "undecided": ["analysis process died (memory limit)"]}
                m["wall"] = now - t0
                out[o] = m
    return out


def known_findings():
    """construct keys of recorded, unrepaired defects"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: "):
                rest = line[len("known: "):]
                prop, _, rest = rest.partition(" ")
                key, _, text = rest.partition(" :: ")
                out.append((prop.removeprefix("property="), key, text))
    return out


def check(prop, root="/repo", tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    props = load_rules()
    from .check import REGISTRY
    from .check import project
    from .project import AnalysisBroken
    oids = props[prop]
    try:
        p = project(root)
    except AnalysisBroken as e:
        print(f"ERROR: {e}")
        return 2
    res = run_obligations(oids, root, tier)
    functions = set()
    viol, unsure, broken, held = [], [], [], []
    facts = 0
    samples = []
    for o in oids:
        m = res[o]
        facts += m.get("facts", 0)
        functions |= set(m.get("functions", ()))
        samples += [{"obligation": o, "fact": s} for s in m.get("samples", ())[:2]]
        if m["status"] == "broken":
            broken.append((o, m["error"]))
        if m["status"] == "holds":
            held.append(o)
        for u in m.get("undecided", ()):
            unsure.append((o, u))
        for f in m.get("findings", ()):
            viol.append((o, f))
    known = known_findings()
    new = []
    for o, f in viol:
        k = [t for pr, key, t in known if pr == prop and key == f["construct"]]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]}")
        else:
            new.append((o, f))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", f"{prop}.violation.json")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo: every function named below was parsed and "
                           "brought to a value-graph normal form covering all its inputs; each obligation compares such "
                           "normal forms (or a fact derived from them) with its specification. Nothing was executed.",
            "source_digest": p.digest(), "modules": len(p.own), "source_lines": p.lines,
            "obligations": len(oids), "discharged": len(held), "undecided": [f"{o}: {u}"[:400] for o, u in unsure],
            "compared_facts": facts, "functions_analysed": sorted(functions), "functions": len(functions),
            "rules": [{"obligation": o, "rule": REGISTRY[o].rule, "about": REGISTRY[o].about, "status": res[o]["status"],
                       "facts": res[o].get("facts", 0)} for o in oids],
            "samples": samples[:12],
        },
        "assumptions": ["annotated parameter types", "standard library and third-party calls behave as modelled "
                        "(uninterpreted unless listed in sa/models.py)", "log output and exception texts are not part of the property"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1)
    for o, u in unsure:
        print(f"UNDECIDED {o}: {u[:600]}")
    for o, e in broken:
        print(f"ERROR {o}: {e}")
    if new:
        with open(replay, "w", encoding="utf8") as f:
            json.dump({"property": prop, "violations": [{"obligation": o, "rule": REGISTRY[o].rule, **x} for o, x in new]}, f, indent=1)
        for o, x in new:
            print(f"{x['where']}: [{o}] {x['message']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if broken:
        return 2
    print(f"{prop}: {len(held)}/{len(oids)} obligations hold, {facts} facts, {len(functions)} functions, {time.time() - t0:.1f} s")
    return 0


def selftest():
    """the framework loads, and every obligation a property names exists"""
    props = load_rules()
    from .check import REGISTRY
    missing = [(p, o) for p, os_ in props.items() for o in os_ if o not in REGISTRY]
    unused = sorted(set(REGISTRY) - {o for v in props.values() for o in v})
    print(f"{len(props)} properties, {len(REGISTRY)} obligations, unused: {unused}, missing: {missing}")
    return 1 if missing else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--tier", default=None)
    a = ap.parse_args(argv)
    return check(a.property, a.root, a.tier)
