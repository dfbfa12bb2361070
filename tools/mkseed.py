"""Helper used while planting bugs: writes seeded/<id>/ from an exact text replacement and a demonstration program."""
import json, os, subprocess, difflib
DEMO = """#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -w {flags} -I eo/src -I eo/contrib -I mo/src -I moeo/src -I edo/src -I smp/src -I problems -I . "$here/demo.cpp" -o "$out/demo" -L _build/lib {libs} || exit 99
timeout 120 "$out/demo" >"$out/log" 2>&1 && {{ echo "demo passes"; exit 0; }}
tail -5 "$out/log"; echo "demo fails"; exit 1
"""
def seed(id, prop, edits, needs, what, demo, flags="", libs="-leo -leoutils"):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True); diff = ""
    byf = {}
    for f, old, new in edits: byf.setdefault(f, []).append((old, new))
    for f, l in byf.items():
        s = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, check=True).stdout.decode("latin-1"); t = s
        for old, new in l:
            assert t.count(old) == 1, (id, f, old, t.count(old)); t = t.replace(old, new)
        diff += "".join(x if x.endswith("\n") else x + "\n\\ No newline at end of file\n" for x in difflib.unified_diff(s.splitlines(True) if False else s.split("\n") and [y + "\n" for y in s.split("\n")[:-1]] + ([s.split("\n")[-1]] if s.split("\n")[-1] else []), [y + "\n" for y in t.split("\n")[:-1]] + ([t.split("\n")[-1]] if t.split("\n")[-1] else []), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin-1", newline="").write(diff)
    open(d + "/demo.sh", "w").write(DEMO.format(flags=flags, libs=libs)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
