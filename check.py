#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

check.py <property> [quick|thorough] [--seed N] [--scale X] [--keep]
exit 0: held; 1: violated (VIOLATION line); other: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, ASSUME_COMMON  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()
LOG = os.environ.get("VERIF_VERBOSE")


def log(*a):
    if LOG:
        print("[%6.2f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


# ------------------------------------------------------------------ library
SAN = {
    "asan": ["-w", "-O1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined",
             "-fno-sanitize=pointer-overflow,nonnull-attribute",
             "-fno-sanitize-recover=all"],
    "tsan": ["-w", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # every variable kept in memory, so that memcheck sees the reading of it
    "memcheck": ["-w", "-O0", "-U_FORTIFY_SOURCE"],
    # other compilers, optimizations and platforms (C39)
    "uchar": ["-w", "-O3", "-funsigned-char"],
    "clang": ["-w", "-O2"],
    "gcc0": ["-w", "-O0"],
    # every basic block and every call of a string function is counted
    "work": ["-w", "-O1", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc"],
}
SAN_HARNESS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    # not instrumented: its own accesses are no concern, and any
    # synchronisation in it must not order the library's
    "tsan": ["-O1"],
    "work": ["-O1"],
    "memcheck": ["-O1"],
    "uchar": ["-O1"],
    "clang": ["-O1"],
    "gcc0": ["-O1"],
}
COMPILER = {"clang": "clang"}
REDIRECT = {s: "mon_" + s for s in
            "malloc calloc realloc reallocarray free strdup strndup "
            "aligned_alloc posix_memalign vasprintf asprintf".split()}
REDIRECT["__vasprintf_chk"] = "mon_vasprintf_chk"
REDIRECT["__asprintf_chk"] = "mon_asprintf_chk"
COUNTED = ("strlen strnlen strchr strchrnul strrchr strstr memmem strcmp strncmp strcasecmp "
           "strncasecmp memcmp memchr memrchr rawmemchr memcpy mempcpy memmove memset strcpy stpcpy "
           "strncpy strcat strncat strspn strcspn strpbrk vsnprintf vsprintf snprintf sprintf").split()


def copy_tree(dst):
    """The working tree without build output and history."""
    skip = {"stage", ".git", ".sconsign.dblite"}
    os.makedirs(dst)
    for name in os.listdir(REPO):
        if name in skip:
            continue
        s = os.path.join(REPO, name)
        d = os.path.join(dst, name)
        if os.path.isdir(s) and not os.path.islink(s):
            shutil.copytree(s, d, symlinks=True)
        else:
            shutil.copy2(s, d, follow_symlinks=False)


class Library:
    """The code under test, built by its own build script from a copy of the
    working tree; sanitizer variants recompile the same translation units
    (generated ones included) with the commands of that build."""

    def __init__(self, work):
        self.work = work
        self.tree = os.path.join(work, "tree")
        self.include = os.path.join(work, "include")
        self.libs = {}
        copy_tree(self.tree)
        os.makedirs(self.include)
        os.symlink(os.path.join(self.tree, "include"),
                   os.path.join(self.include, "fsdyn"))

    def build_plain(self):
        env = {"HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
               "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               "FSARCHS": "linux64", "FSCC": "gcc", "FSCCFLAGS": "-Wno-error",
               "TMPDIR": self.work}
        r = run(["scons", "-j%d" % NCPU, "stage/linux64/build/src"],
                cwd=self.tree, env=env)
        lib = os.path.join(self.tree, "stage/linux64/build/src/libfsdyn.a")
        if r.returncode or not os.path.exists(lib):
            raise CheckError("the library does not build:\n" + r.stdout[-3000:])
        self.cmds = [l.split() for l in r.stdout.splitlines()
                     if re.match(r"^gcc -o \S+\.o -c ", l)]
        members = subprocess.check_output(["ar", "t", lib], text=True).split()
        self.members = set(members)
        self.libs["plain"] = self.redirect(lib, "plain")

    def redirect(self, lib, variant):
        out = os.path.join(self.work, "libfsdyn-%s.a" % variant)
        table = os.path.join(self.work, "redirect-%s" % variant)
        with open(table, "w") as f:
            for a, b in REDIRECT.items():
                f.write("%s %s\n" % (a, b))
            for a in COUNTED if variant == "work" else ():
                f.write("%s wk_%s\n" % (a, a))
        r = run(["objcopy", "--redefine-syms=" + table, lib, out])
        if r.returncode:
            raise CheckError("objcopy: " + r.stdout)
        return out

    def build_variant(self, variant, extra=None, ex=None):
        d = os.path.join(self.work, "obj-" + variant)
        os.makedirs(d)
        jobs = []
        for c in self.cmds:
            o = os.path.basename(c[2])
            if o not in self.members:
                continue
            cmd = [COMPILER.get(variant, c[0]), c[1], os.path.join(d, o)] + c[3:] + (extra or SAN[variant])
            jobs.append((os.path.join(d, o), cmd))
        if len(jobs) != len(self.members):
            raise CheckError("the build's commands were not understood")
        size = {o: os.path.getsize(os.path.join(self.tree, [a for a in c if a.endswith(".c")][0])) for o, c in jobs}
        if COMPILER.get(variant) == "clang":
            # which takes minutes for the two big generated tables
            jobs = [(o, ["gcc"] + c[1:] if size[o] > 600000 else c) for o, c in jobs]
        # the big tables first
        jobs.sort(key=lambda j: -size[j[0]])
        for (o, c), r in zip(jobs, ex.map(
                lambda j: run(j[1], cwd=self.tree), jobs)):
            if r.returncode:
                raise CheckError("%s: %s" % (o, r.stdout[-2000:]))
        lib = os.path.join(d, "libfsdyn.a")
        r = run(["ar", "rcs", lib] + [j[0] for j in jobs])
        if r.returncode:
            raise CheckError(r.stdout)
        self.libs[variant] = self.redirect(lib, variant)


def build(prop, work, variants):
    """Returns {variant: binary}."""
    cfg = PROPS[prop]
    lib = Library(work)
    units = ["core", "main"] + cfg["units"]
    bins = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = {}
        for v in variants:
            for u in units:
                o = os.path.join(work, "%s-%s.o" % (u, v))
                flags = SAN_HARNESS[v] + cfg.get("cxxflags", {}).get(u, [])
                cmd = (["g++", "-std=c++17", "-g1", "-w", "-I" + lib.include,
                        "-I" + HARNESS] + flags +
                       ["-c", os.path.join(HARNESS, u + ".cpp"), "-o", o])
                objs[v, u] = (o, ex.submit(run, cmd))
        lib.build_plain()
        log("plain library built")
        for v in variants:
            if v != "plain":
                lib.build_variant(v, ex=ex)
                log(v, "library built")
        for (v, u), (o, f) in objs.items():
            if f.result().returncode:
                raise CheckError("harness %s/%s does not compile:\n%s" %
                                 (u, v, f.result().stdout[-3000:]))
        links = []
        for v in variants:
            b = os.path.join(work, "mon-" + v)
            link = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}.get(v, [])
            cmd = (["g++"] + link + [objs[v, u][0] for u in units] +
                   [lib.libs[v], "-Wl,-z,now", "-pthread", "-ldl", "-o", b])
            links.append((v, b, ex.submit(run, cmd)))
        for v, b, f in links:
            if f.result().returncode:
                raise CheckError("link %s:\n%s" % (v, f.result().stdout[-3000:]))
            bins[v] = b
    log("linked")
    return bins, lib


# ------------------------------------------------------------------ inputs
def mine_constants(path):
    """Integers and strings occurring in the sources: boundaries to try."""
    ints, strs = set(), set()
    for d in ("src", "include"):
        base = os.path.join(REPO, d)
        for root, _, files in os.walk(base):
            for n in sorted(files):
                if not n.endswith((".c", ".h")):
                    continue
                text = open(os.path.join(root, n), errors="replace").read()
                text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
                text = re.sub(r"//[^\n]*", " ", text)
                for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b", text):
                    t = m.group(1)
                    try:
                        v = int(t, 16) if t[:2] in ("0x", "0X") else (
                            int(t, 8) if t[0] == "0" and len(t) > 1 else int(t))
                    except ValueError:
                        continue
                    if v < 1 << 64:
                        ints.add(v)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
                    s = m.group(1)
                    if 0 < len(s) < 60 and "\\" not in s and "%" not in s:
                        strs.add(s)
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
        for s in sorted(strs):
            f.write("s %s\n" % s.encode().hex())


KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """finding: property=C20 key=<key> <what fails>"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


# ------------------------------------------------------------------ running
LOCALES = ["tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "tr_TR.UTF-8", "ru_RU.KOI8-R", "fi_FI.UTF-8", "ja_JP.EUC-JP",
           "zh_CN.GB18030", "th_TH.TIS-620", "el_GR.CP1253",
           "C.UTF-8"]


def make_locales(d):
    """locales of their own for the run, as the system has few"""
    os.makedirs(d)
    def one(n):
        lang, cs = n.split(".", 1)
        r = subprocess.run(["localedef", "-c", "-i", lang, "-f", cs, os.path.join(d, n)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return n if r.returncode <= 1 and os.path.isdir(os.path.join(d, n)) else None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [n for n in ex.map(one, LOCALES) if n]


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=0:"
                    "detect_invalid_pointer_pairs=0:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:report_signal_unsafe=0:"
                    "report_thread_leaks=0:history_size=4",
    "TZ": "UTC", "LANG": "C", "LC_ALL": "C",
    "PATH": "/usr/bin:/bin",
}


class Ctx:
    pass


def job_cmd(c, variant, shard, nshards, tag):
    d = c.work
    base = os.path.join(d, "run-" + tag)
    cmd = [c.bins[variant], "--prop", c.prop, "--variant", variant,
           "--tier", c.tier, "--seed", str(c.seed), "--shard", str(shard),
           "--nshards", str(nshards), "--scale", str(c.scale),
           "--stats", base + ".stats", "--report", base + ".report",
           "--progress", base + ".progress", "--dict", c.dict,
           "--known", c.known_path]
    if c.data:
        cmd += ["--data", c.data]
    if c.locales:
        cmd += ["--locales", ",".join(c.locales)]
    if variant == "memcheck":
        cmd = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-exitcode=97",
               "--exit-on-first-error=yes", "--num-callers=16", "--partial-loads-ok=yes"] + cmd + [
               "--cpu-factor", "40"]
    if variant == "tsan":
        cmd = ["setarch", "-R"] + cmd if c.noaslr else cmd
    return cmd, base


def run_job(c, variant, shard, nshards, extra=(), tag=None):
    tag = tag or "%s-%d" % (variant, shard)
    cmd, base = job_cmd(c, variant, shard, nshards, tag)
    try:
        with open(base + ".out", "w") as out:
            p = subprocess.run(cmd + list(extra), stdout=out, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, env=dict(ENV, VERIF_SCRATCH=c.work, **(
                                   {"LOCPATH": os.path.join(c.work, "locale")} if c.locales else {})),
                               cwd=c.work, timeout=c.wall_limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    return rc, base


def read_progress(base):
    try:
        b = open(base + ".progress", "rb").read(48 + 40)
        name = b[:48].split(b"\0")[0].decode()
        idx, seed, a, bb, st = struct.unpack("<5Q", b[48:88])
        return name, idx, a, bb
    except (OSError, struct.error):
        return "?", 0, 0, 0


def judge(c, variant, shard, nshards, rc, base):
    """None = fine, else (key, message, module, idx)."""
    if rc == 0:
        return None
    if rc == 10:
        r = json.load(open(base + ".report"))
        return r["key"], r["message"], r["module"], r["idx"]
    mod, idx, a, b = read_progress(base)
    tail = open(base + ".out", errors="replace").read()[-6000:]
    if rc == 11:
        # a hang: look again at the very case with three times the allowance
        # (twice that of texts beyond 4 GiB, which is three times as long)
        factor = "2" if mod.startswith("huge_") else "3"
        rc2, base2 = run_job(c, variant, shard, nshards,
                             ["--only", mod, "--idx", str(idx), "--cpu-factor", factor],
                             tag="hang-%s-%d" % (variant, shard))
        if rc2 == 0:
            raise CheckError("a case was slow but finished (%s %d)" % (mod, idx))
        if rc2 == 11:
            return ("hang", "no end within the CPU-time allowance, twice", mod, idx)
        return judge(c, variant, shard, nshards, rc2, base2)
    if rc == 12 or rc == "timeout" or rc == -signal.SIGKILL or rc in (2, 126, 127):
        raise CheckError("worker ended with %s (%s %d): %s" % (rc, mod, idx, tail[-1500:]))
    what = "signal %d" % -rc if isinstance(rc, int) and rc < 0 else "exit status %s" % rc
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|"
                  r"[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]*|"
                  r"Conditional jump or move depends on [^\n]*|Use of uninitialised [^\n]*|"
                  r"Syscall param [^\n]*|Invalid (?:read|write|free)[^\n]*)", tail)
    # sanitizer reports may be long: search the whole output
    if not m:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|"
                      r"[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]*|"
                  r"Conditional jump or move depends on [^\n]*|Use of uninitialised [^\n]*|"
                  r"Syscall param [^\n]*|Invalid (?:read|write|free)[^\n]*)",
                      open(base + ".out", errors="replace").read())
    detail = m.group(1) if m else tail[-300:].replace("\n", " | ")
    return "crash:" + what, "%s in %s: %s" % (what, variant, detail), mod, idx


def write_replay(c, variant, shard, nshards, finding, base):
    key, msg, mod, idx = finding
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-seed%d.txt" % (c.prop, c.tier, c.seed))
    extra = ["--trace"]
    if mod and mod not in ("?", ""):
        extra += ["--only", mod, "--idx", str(idx)]
    try:
        rc, b2 = run_job(c, variant, shard, nshards, extra, tag="replay")
        out = open(b2 + ".out", errors="replace").read()
    except Exception as e:  # noqa: BLE001
        rc, out = "?", str(e)
    with open(path, "w") as f:
        f.write("property: %s\nfailure: [%s] %s\nmodule: %s case/shard %s of %d, variant %s, "
                "seed %d, tier %s\n" % (c.prop, key, msg, mod, idx, nshards, variant, c.seed, c.tier))
        f.write("replay: VERIF_SEED=%d python3 %s/check.py %s %s --replay %s:%s:%s:%d:%d\n" %
                (c.seed, VERIF, c.prop, c.tier, variant, mod, idx, shard, nshards))
        f.write("\n--- first run (end of output)\n" +
                open(base + ".out", errors="replace").read()[-8000:])
        f.write("\n--- traced re-run (exit %s)\n" % rc)
        f.write(out if len(out) < 60000 else out[:20000] + "\n[...]\n" + out[-40000:])
    return path


def main():
    args = sys.argv[1:]
    keep = "--keep" in args
    args = [a for a in args if a != "--keep"]
    opts = {}
    pos = []
    i = 0
    while i < len(args):
        if args[i].startswith("--"):
            opts[args[i][2:]] = args[i + 1]
            i += 2
        else:
            pos.append(args[i])
            i += 1
    c = Ctx()
    c.prop = pos[0]
    if c.prop not in PROPS:
        raise CheckError("unknown property " + c.prop)
    cfg = PROPS[c.prop]
    c.tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    c.seed = int(opts.get("seed", os.environ.get("VERIF_SEED", "1")))
    c.scale = float(opts.get("scale", "1"))
    c.wall_limit = 800 if c.tier == "quick" else 6 * 3600
    variants = list(cfg.get("variants", ["plain", "asan"]))
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    c.work = tempfile.mkdtemp(prefix=c.prop + "-", dir=os.path.join(VERIF, "build"))
    try:
        return check(c, cfg, variants, opts)
    finally:
        if not keep:
            shutil.rmtree(c.work, ignore_errors=True)


def report_probe(c, cfg, ev_path, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-seed%d.txt" % (c.prop, c.tier, c.seed))
    with open(path, "w") as f:
        f.write("property: %s\n%s\nreplay: python3 %s/check.py %s %s\n" % (c.prop, msg, VERIF, c.prop, c.tier))
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
          "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": cfg["rule"],
                       "samples": [msg[:400]]},
          "assumptions": ASSUME_COMMON, "wall_s": round(time.time() - T0, 2), "violations": 1}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print(msg[:400])
    print("VIOLATION property=%s replay=%s" % (c.prop, path))
    return 1


def check(c, cfg, variants, opts):
    ev_path = os.path.join(VERIF, "evidence", c.prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    c.dict = os.path.join(c.work, "dict")
    mine_constants(c.dict)
    c.known = known_findings(c.prop)
    c.known_path = os.path.join(c.work, "known")
    with open(c.known_path, "w") as f:
        for k in c.known:
            f.write(k + "\n")
    c.data = None
    c.locales = make_locales(os.path.join(c.work, "locale")) if cfg.get("locales") else None
    c.noaslr = "tsan" in variants and run(["setarch", "-R", "true"]).returncode == 0
    if cfg.get("data"):
        import mkdata
        c.data = os.path.join(c.work, "data.bin")
        dp = subprocess.Popen([sys.executable, os.path.join(VERIF, "tools", "mkdata.py"),
                               os.path.join(VERIF, "data"), c.data])
    preprobe = None
    try:
        c.bins, lib = build(c.prop, c.work, variants)
    except CheckError as e:
        if not cfg.get("preprobe") or "undefined reference" in str(e) or "multiple definition" in str(e):
            if cfg.get("preprobe") and str(e).startswith("link"):
                return report_probe(c, cfg, ev_path, str(e)[-1500:])
            raise
        import probes
        n, bad = getattr(probes, cfg["preprobe"])(c, os.path.join(c.work, "tree"))
        if bad:
            return report_probe(c, cfg, ev_path, bad)
        raise
    c.lib = lib
    if cfg.get("preprobe"):
        import probes
        n, bad = getattr(probes, cfg["preprobe"])(c, lib.tree)
        if bad:
            return report_probe(c, cfg, ev_path, bad)
        preprobe = n
    if cfg.get("data") and dp.wait():
        raise CheckError("reference data could not be generated")
    if "replay" in opts:
        v, mod, idx, shard, ns = opts["replay"].split(":")
        rc, base = run_job(c, v, int(shard), int(ns),
                           ["--trace"] + (["--only", mod, "--idx", idx] if mod != "?" else []))
        sys.stdout.write(open(base + ".out", errors="replace").read())
        print("exit", rc)
        return 1 if rc == 10 else 0 if rc == 0 else 3
    ns = int(cfg.get("shards", 8))
    finding = None
    jobs = []
    order = [v for v in variants if v != "plain"] + [v for v in variants if v == "plain"]
    for v in order:
        for s in range(ns):
            jobs.append((v, s))
    results = []
    extra_cov = {}
    if preprobe:
        extra_cov = {"evaluations": preprobe, "distinct": preprobe, "header_compilations": preprobe}
    with cf.ThreadPoolExecutor(int(cfg.get("workers", NCPU))) as ex:
        fs = {ex.submit(run_job, c, v, s, ns): (v, s) for v, s in jobs}
        for f in cf.as_completed(fs):
            v, s = fs[f]
            if f.cancelled():
                continue
            rc, base = f.result()
            log("job", v, s, "rc", rc)
            fnd = judge(c, v, s, ns, rc, base)
            if fnd and cfg.get("reference"):
                # judged is only in what builds, or surroundings, differ
                others = [(v, ["--calm"])] if cfg["reference"] == "calm" else [(w, []) for w in variants if w != v]
                for w, calm in others:
                    rc2, _ = run_job(c, w, s, ns, calm + ["--only", fnd[2], "--idx", str(fnd[3])],
                                     tag="ref-%s-%s-%d" % (w, v, s))
                    if rc2 == 0:
                        break
                else:
                    log("no other build, or surroundings, make a difference:", fnd)
                    extra_cov["shards_failing_alike"] = extra_cov.get("shards_failing_alike", 0) + 1
                    continue
            if fnd:
                finding = (v, s, fnd, base)
                for g in fs:
                    g.cancel()
                break
            results.append((v, s, base))
        if finding:
            # do not wait for the rest longer than needed
            subprocess.run(["pkill", "-f", c.work + "/mon-"], stdout=subprocess.DEVNULL)
    if not finding and cfg.get("probe"):
        import probes
        finding = getattr(probes, cfg["probe"])(c, extra_cov)
    stats = {"cases": 0, "evals": 0, "nontrivial": 0, "sweep_distinct": 0, "allocs": 0,
             "reallocs": 0, "frees": 0, "foreign": 0, "direct_malloc": 0}
    events, samples, mods, known_hits = {}, [], {}, {}
    sigs = set()
    for v, s, base in results:
        st = json.load(open(base + ".stats"))
        for k in stats:
            stats[k] += st[k]
        for k, n in st["events"].items():
            events[k] = events.get(k, 0) + n
        for k, n in st["known"].items():
            known_hits[k] = known_hits.get(k, 0) + n
        for m in st["modules"]:
            mods.setdefault(m, set()).add(v)
        for x in st["samples"]:
            if s == 0 or len(samples) < 3:
                samples.append("%s [%s]" % (x, v))
        b = open(base + ".stats.sigs", "rb").read()
        sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    for k in extra_cov.pop("known", []):
        known_hits[k] = known_hits.get(k, 0) + 1
    evaluations = stats["cases"] + stats["evals"] + extra_cov.get("evaluations", 0)
    # sweeps run in several builds count their distinct points once
    sweep_distinct = 0
    per_variant = {}
    for v, s, base in results:
        st = json.load(open(base + ".stats"))
        per_variant[v] = per_variant.get(v, 0) + st["sweep_distinct"]
    sweep_distinct = max(per_variant.values()) if per_variant else 0
    distinct = len(sigs) + sweep_distinct + extra_cov.get("distinct", 0)
    if not finding and (evaluations == 0 or distinct == 0):
        raise CheckError("nothing was observed")
    for e in cfg.get("must_see", []):
        if not finding and not events.get(e):
            raise CheckError("the workload never reached the event " + e)
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": min(distinct, evaluations),
        "rule": cfg["rule"],
        "samples": samples[:12],
        "monitored_events": dict(sorted(events.items())),
        "modules": {m: sorted(x) for m, x in sorted(mods.items())},
        "builds": variants,
        "reallocator_calls": {k: stats[k] for k in ("allocs", "reallocs", "frees")},
    }
    cov.update({k: x for k, x in extra_cov.items() if k not in ("evaluations", "distinct")})
    if c.prop in ("C10", "C38"):
        cov["cases_judged_by_other_properties"] = stats["foreign"]
    ev = {
        "property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
        "coverage": cov, "assumptions": ASSUME_COMMON + cfg.get("assume", []),
        "wall_s": round(time.time() - T0, 2), "violations": 1 if finding else 0,
    }
    if finding:
        v, s, fnd, base = finding
        replay = write_replay(c, v, s, ns, fnd, base) if base else fnd[4]
        cov["violation"] = "[%s] %s" % (fnd[0], fnd[1])
        if not cov["samples"]:
            cov["samples"] = [cov["violation"]]
    with open(ev_path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(ev_path + ".tmp", ev_path)
    for k, what in c.known.items():
        if known_hits.get(k):
            print("KNOWN-FINDING: property=%s %s" % (c.prop, what))
    if finding:
        print("[%s] %s" % (fnd[0], fnd[1]))
        print("VIOLATION property=%s replay=%s" % (c.prop, replay))
        return 1
    print("%s held: %d evaluations, %d distinct, %.1f s" %
          (c.prop, evaluations, cov["distinct_nontrivial"], time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        sys.exit(3)
