#!/usr/bin/env python3
"""mkseed.py FILE... : (re)creates /verif/seeded/<id>/ from the SEEDS of dev/seeds/*.py
A seed: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<C++ text>, flags=<extra compiler flags>, run=<shell tail>)"""
import difflib, importlib.util, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEMO = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for this scenario
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -pthread -w %s -I include "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T"
%s
"""


def main():
    for fn in sys.argv[1:]:
        sp = importlib.util.spec_from_file_location("s", fn)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            d = os.path.join(ROOT, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            files = {}
            for f, old, new in s["edits"]:
                p = "include/parlay/" + f
                if p not in files:
                    t = open(os.path.join(REPO, p)).read(); files[p] = [t, t]
                assert files[p][1].count(old) == 1, (s["id"], f, old, files[p][1].count(old))
                files[p][1] = files[p][1].replace(old, new)
            patch = ""
            for p, (a, b) in files.items():
                patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
            sh = os.path.join(d, "demo.sh")
            open(sh, "w").write(DEMO % (s.get("flags", "-O1"), s.get("run", 'timeout 120 ./demo')))
            os.chmod(sh, 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(s["id"])


main()
