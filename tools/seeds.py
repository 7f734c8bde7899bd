"""Makes and tries planted bugs.

  seeds.py make FILE.py     FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)...], needs, breaks, demo)]
  seeds.py try [ID...]      for each /verif/seeded/ID: apply to /repo, build, run tests and the demo, run the check, undo
"""
import json, os, shutil, subprocess, sys, tempfile
SD = "/verif/seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def make(path):
    g = {}
    exec(open(path).read(), g)
    for s in g["SEEDS"]:
        d = f"{SD}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        diff = ""
        by = {}
        for f, old, new in s["edits"]:
            by.setdefault(f, []).append((old, new))
        for f, es in by.items():
            src = open("/repo/" + f).read()
            out = src
            for old, new in es:
                assert out.count(old) == 1, (s["id"], f, out.count(old), old)
                out = out.replace(old, new)
            compile(out, f, "exec")
            open(t + "/a", "w").write(src)
            open(t + "/b", "w").write(out)
            r = sh("diff", "-u", "--label", "a/" + f, "--label", "b/" + f, t + "/a", t + "/b")
            diff += f"diff --git a/{f} b/{f}\n" + r.stdout
        shutil.rmtree(t)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def tryone(i):
    d = f"{SD}/{i}"
    m = json.load(open(d + "/meta.json"))
    assert not sh("git", "-C", "/repo", "status", "--short").stdout
    out = []
    r0 = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
    out.append("demo0=%d" % r0.returncode)
    a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
    if a.returncode:
        return f"{i}: does not apply {a.stderr}"
    try:
        r1 = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
        out.append("demo1=%d" % r1.returncode)
        if "-t" not in sys.argv:
            sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed") or base
            ok = set(res.get("passed", []))
            bad = [t for t in st if t not in ok]
            out.append("tests-broken=%d" % len(bad) + (" " + ", ".join(bad[:3]) if bad else ""))
        c = sh("timeout", "600", "python3", "run.py", m["property"], cwd="/verif", env={**os.environ, "VERIF_TIER": "quick", "VERIF_SEED": "1"})
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append(f"check={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'missed'}")
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    return f"{i}: " + " ".join(out) + ("" if r0.returncode == 0 else "\n" + r0.stderr[-800:])


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    ids = [a for a in sys.argv[2:] if a != "-t"] or sorted(os.listdir(SD))
    for i in ids:
        print(tryone(i), flush=True)
