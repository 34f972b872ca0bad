"""Probes that are not runs of the monitors' binary."""
import os
import subprocess


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def cxx_headers(c, tree):
    """C30: every public header compiles as C++ on its own, all of them together in
    several translation units, which link. Returns (evaluations, None or message)."""
    inc = os.path.join(c.work, "include")
    heads = sorted(h for h in os.listdir(os.path.join(tree, "include"))
                   if h.endswith(".h") and not h.endswith("_imp.h"))
    d = os.path.join(c.work, "cxx")
    os.makedirs(d, exist_ok=True)
    units = [("one_" + h[:-2], [h]) for h in heads]
    units += [("all_%d" % i, heads if i != 1 else heads[::-1]) for i in range(3)]
    objs = []
    procs = []
    for name, hs in units:
        src = os.path.join(d, name + ".cpp")
        with open(src, "w") as f:
            for h in hs + hs:
                f.write("#include <fsdyn/%s>\n" % h)
        obj = os.path.join(d, name + ".o")
        objs.append(obj)
        procs.append((name, subprocess.Popen(
            ["g++", "-std=c++17", "-w", "-I" + inc, "-c", src, "-o", obj],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    bad = None
    for name, p in procs:
        out = p.communicate()[0]
        if p.returncode and not bad:
            bad = "the headers do not compile as C++ (%s): %s" % (name, out[:1500])
    if not bad:
        r = _run(["g++", "-r", "-nostdlib", "-o", os.path.join(d, "all.o")] + objs)
        if r.returncode:
            bad = "several translation units with the headers do not link: " + r.stdout[:1500]
    return len(units) + 1, bad
