#!/usr/bin/env python3
"""replay.py PROPERTY HARNESS SCOPE CHOICES [args]: run one recorded execution alone."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
prop, name, scope, choices = sys.argv[1:5]
for h in CHECKS[prop]["harness"]:
    h = dict(h) if isinstance(h, dict) else {"name": h}
    if h["name"] == name:
        b = build.harness(name, h.get("variant", "asan"), h.get("sources"), h.get("defines", ()))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:hard_rss_limit_mb=3500")
        sys.exit(subprocess.run([b, "--scope", scope, "--replay", choices, "--log", "/tmp"] + sys.argv[5:], env=env).returncode)
