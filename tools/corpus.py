"""Edits that keep the behaviour: every obligation has to stay quiet on them (`python3 tools/corpus.py [name…]`)."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}


def edit(name, file, *pairs):
    EDITS.setdefault(name, []).append((file, pairs))


A, F, LB, SO, U = "api.py", "resolver/filtering.py", "resolver/lib.py", "resolver/sorting.py", "utils.py"
VA, VJ, VI, DI, PP = "models/variant.py", "variants_json.py", "models/variant_info.py", "variant_dist_info.py", "pyproject_toml.py"
PR, CM, CF, VB, KT, VC = "models/provider.py", "models/configuration.py", "configuration.py", "validators/base.py", "validators/keytracking.py", "validators/combining.py"
GI, MK, UM, AW, AN, UP = (f"commands/{x}.py" for x in ("generate_index_json", "make_variant", "unmake_variant", "add_wheel_to_index_json", "analyze_wheel", "update_pyproject_toml"))
PL, SP, GC, SH, GH, MAIN = "plugins/loader.py", "plugins/_subprocess.py", "commands/plugins/get_configs.py", "commands/config/show.py", "commands/get_variant_hash.py", "commands/main.py"
exec(open(os.path.join(V, "tools", "corpus_edits.py")).read())  # noqa: S102


def run(name):
    d = f"/tmp/corpus/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/variantlib", d + "/variantlib")
    shutil.copy("/repo/pyproject.toml", d)
    for file, pairs in EDITS[name]:
        p = f"{d}/variantlib/{file}"
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) < 1:
                return name, f"EDIT DOES NOT APPLY: {file}: {old[:60]!r}"
            s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)
    r = subprocess.run([sys.executable, "dev.py"], cwd=V, env={**os.environ, "ROOT": d}, capture_output=True, text=True, timeout=1500)
    if "-k" not in sys.argv:
        shutil.rmtree(d, ignore_errors=True)
    bad = [ln[:230] for ln in r.stdout.splitlines() if ln.startswith(("==", "    V"))]
    if "-v" in sys.argv:
        bad = [ln[:600] for ln in r.stdout.splitlines()][:-1]
    return name, "\n    ".join(bad) or ("quiet" if r.stdout.strip() else "NO OUTPUT " + r.stderr[-300:])


def main():
    names = [n for n in EDITS if not [a for a in sys.argv[1:] if a[0] != "-"] or any(n.startswith(a) for a in sys.argv[1:] if a not in ("-v", "-k"))]
    with ThreadPoolExecutor(7) as ex:
        for name, out in ex.map(run, names):
            if out != "quiet":
                print(name, "\n   ", out, flush=True)
    print(len(names), "edits")


main()
