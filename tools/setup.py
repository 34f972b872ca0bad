#!/usr/bin/env python3
"""Nothing is built ahead of time (every check builds from /repo's tree); this
only makes sure that the tools and the committed reference data are there."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ("gcc", "g++", "ar", "objcopy", "scons", "setarch") if not shutil.which(t)]
if bad:
    sys.exit("missing tools: " + " ".join(bad))
for d in ("evidence", "build", "replays"):
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
with tempfile.TemporaryDirectory(dir=os.path.join(VERIF, "build")) as t:
    subprocess.check_call([sys.executable, os.path.join(VERIF, "tools", "mkdata.py"),
                           os.path.join(VERIF, "data"), os.path.join(t, "data.bin")])
    src = os.path.join(t, "a.cpp")
    open(src, "w").write("int main() { return 0; }\n")
    for san in ("address,undefined", "thread"):
        subprocess.check_call(["g++", "-fsanitize=" + san, src, "-o", os.path.join(t, "a")])
print("ready")
