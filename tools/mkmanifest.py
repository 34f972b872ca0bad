#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, TECHNIQUE  # noqa: E402

checks = []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    cfg = PROPS[p]
    builds = cfg.get("variants", ["plain", "asan"])
    names = {"plain": "the shipped build", "asan": "an AddressSanitizer + UBSan build",
             "tsan": "a ThreadSanitizer build",
             "uchar": "a build with unsigned char by gcc -O3", "clang": "a build by clang",
             "gcc0": "a build by gcc -O0",
             "memcheck": "an unoptimized build under valgrind's memcheck",
             "work": "a build that counts basic blocks and C library calls"}
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECHNIQUE[p],
        "level": "exploration",
        "level_note": "Held on every execution explored, in %s; nothing is proved beyond those. %s. "
                      "Trusts the reference model in harness/, the compiler's instrumentation and glibc."
                      % (" and in ".join(names[b] for b in builds),
                         cfg["rule"][0].upper() + cfg["rule"][1:]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "none (no hook was added to /repo)",
        "enable": "the checks build a copy of the working tree with its own SConstruct; monitors attach "
                  "through the public reallocator and comparator callbacks and by redirecting the "
                  "malloc-family symbols of the built archive (objcopy --redefine-syms)",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
