#!/usr/bin/env python3
"""mkbug.py ID PROPERTY 'needs' 'what it breaks' < demo.cc
Takes the uncommitted change in /repo as a planted bug, reverts it, and writes seeded/ID.
The demonstration program comes on stdin; it gets a scratch directory as argv[1]."""
import json, os, subprocess, sys
ID, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
open(d + "/demo.cc", "w").write(sys.stdin.read())
flags = sys.argv[5] if len(sys.argv) > 5 else ""
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Run in the repository after it was built. Exit 0: the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -O1 -I"$repo/src" -I/usr/include/minizip -I"$repo/_build/src" "$here/demo.cc" -o "$t/demo" %s \\
  -L"$repo/_build/lib" -lkmlregionator -lkmlconvenience -lkmlengine -lkmldom -lkmlbase -lexpat -lminizip -lz -lpthread -ldl \\
  -Wl,-rpath,"$repo/_build/lib" || { echo "demo does not compile"; exit 3; }
mkdir "$t/work" && cd "$t/work" && timeout 120 "$t/demo" "$t/work"
''' % flags)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
