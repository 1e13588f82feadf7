#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < spec: make a planted bug from the working tree of /repo (edit first, then run); demo.c is given on stdin"""
import json, os, subprocess, sys
id_, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + id_
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", os.environ.get("SEED_REPO", "/repo"), "diff"], capture_output=True, text=True).stdout)
subprocess.run(["git", "-C", os.environ.get("SEED_REPO", "/repo"), "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.c", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
gcc -w -g -O1 -DHAVE_CONFIG_H -I_build/src -Isrc -I/usr/include/tirpc -I/usr/include/libxml2 -o "$w/demo" "$here/demo.c" \\
  -L_build/src/.libs -lmetaresc -ltirpc -lxml2 -lpthread -lm -Wl,-rpath,"$PWD/_build/src/.libs" || exit 3
timeout 60 "$w/demo"
''')
