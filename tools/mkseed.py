#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS < demo.cpp: record /repo's working-tree change as a planted bug, then undo it."""
import sys, os, subprocess, json
i, p, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff, "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/demo.cpp", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo after a build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp)
g++-12 -std=c++20 -O1 -w -include numeric -Icpp/lib_moment -isystem /usr/include/eigen3 "$d/demo.cpp" _build/lib_moment.a -lpthread -Wl,--unresolved-symbols=ignore-all -o "$t" || exit 3
timeout 100 "$t"; r=$?; unlink "$t"; exit $r
''')
json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
