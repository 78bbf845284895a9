#!/usr/bin/env python3
"""mkseed.py FILE: creates /verif/seeded/<id> from a Python file that defines SEEDS = [dict(id, property, edits=[(old, new)...], demo, needs, breaks)]."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = os.environ.get("SEED_REPO", "/repo")
H = R + "/include/opt/option.hpp"
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    src = open(H).read()
    new = src
    for e in s["edits"]:
        old, rep = e[0], e[1]
        n = e[2] if len(e) > 2 else None
        c = new.count(old)
        if n is None:
            assert c == 1, (s["id"], c, old)
            new = new.replace(old, rep)
        else:
            parts = new.split(old)
            assert len(parts) > n + 1, (s["id"], c)
            new = old.join(parts[:n + 1]) + rep + old.join(parts[n + 1:])
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(H, "w").write(new)
    diff = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True, text=True).stdout
    open(H, "w").write(src)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    std = s.get("std", "17")
    comp = s.get("cxx", "g++")
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
{comp} -std=c++{std} -DOPTION_USE_PFR=0 {s.get("flags", "")} -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
''')
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
