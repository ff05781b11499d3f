#!/usr/bin/env python3
"""Build /repo's library sources (current working tree) and a harness, outside /repo.

usage: vbuild.py VARIANT HARNESS.cc [more sources] -> prints the path of the binary
The library is compiled from a mirror of /repo/src in /verif/build/VARIANT (git-ignored); generated
files that are tracked in /repo are used as they stand unless their grammar input changed, in which
case they are regenerated in the mirror (the same rule as the project's build).
"""
import hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
COMMON = ["-g", "-std=gnu11", "-DHAVE_CONFIG_H", "-fno-strict-aliasing", "-pthread", "-w",
          "-I/usr/include/json-c"]
VARIANTS = {
    # gcc address sanitizer: every memory error of an explored execution is a failure
    "asan": (["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    # plain optimised build
    "fast": (["-O2"], []),
    # every memory access is announced to harness/sched.hpp, which is linked instead of the sanitizer's runtime
    "sched": (["-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"], ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock")]),
}
# sha256 of the inputs at the pinned commit: as in the project's own build, unchanged inputs mean
# the tracked generated files are what is compiled
GEN = {
    "lex": (["handlebars.l"], ["handlebars.lex.c", "handlebars.lex.h"],
            ["flex", "--noreject", "--fast", "--align", "-o", "handlebars.lex.c", "handlebars.l"]),
    "tab": (["handlebars.y"], ["handlebars.tab.c", "handlebars.tab.h"],
            ["bison", "-Wall", "-b", "handlebars", "handlebars.y"]),
    "re": (["handlebars_scanners.re"], ["handlebars_scanners.c"],
           ["re2c", "--no-generation-date", "-s8", "-o", "handlebars_scanners.c", "handlebars_scanners.re"]),
    "gperf": (["handlebars_helpers_ht.gperf"], ["handlebars_helpers_ht.h"],
              ["gperf", "--struct-type", "--readonly-tables", "--compare-strncmp", "--compare-lengths",
               "--global-table", "--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"]),
}
BASE = os.path.join(VERIF, "lib", "gen_base.txt")


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(str(len(p)).encode() + b":" + p)
    return m.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
        sys.exit(3)
    return r.stdout


def gen_hashes():
    src = os.path.join(REPO, "src")
    return {g: h(*[rd(os.path.join(src, i)) for i in ins]) for g, (ins, _, _) in GEN.items()}


def build(variant, harness, extra=(), cxxflags=(), ldflags=(), libcflags=(), tag=""):
    cflags, lflags = VARIANTS[variant]
    cflags = list(cflags) + list(libcflags)
    d = os.path.join(BUILD, variant + (("-" + tag) if tag else ""))
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, "src")
    files = sorted(f for f in os.listdir(src) if f.endswith((".c", ".h", ".l", ".y", ".re", ".gperf")) and f != "handlebars_config.h")
    vend = {}
    for sub in ("sort_r", "xxhash"):
        for f in sorted(os.listdir(os.path.join(REPO, "vendor", sub))):
            vend[sub + "/" + f] = rd(os.path.join(REPO, "vendor", sub, f))
    contents = {f: rd(os.path.join(src, f)) for f in files}
    contents["bin_handlebarsc.c"] = rd(os.path.join(REPO, "bin", "handlebarsc.c"))
    cfg = {f: rd(os.path.join(VERIF, "lib", "config", f)) for f in ("config.h", "handlebars_config.h")}
    key = h(repr(sorted(contents.items())), repr(sorted(vend.items())), repr(sorted(cfg.items())), repr(cflags), repr(COMMON))
    m = os.path.join(d, "src")
    stamp = os.path.join(d, "stamp")
    lib = os.path.join(d, "libhb.a")
    if not (os.path.exists(stamp) and rd(stamp).decode() == key):
        if os.path.exists(stamp):
            os.unlink(stamp)
        shutil.rmtree(m, ignore_errors=True)
        os.makedirs(m)
        for f, c in contents.items():
            with open(os.path.join(m, f), "wb") as o:
                o.write(c)
        for f, c in cfg.items():
            with open(os.path.join(m, f), "wb") as o:
                o.write(c)
        for f, c in vend.items():
            p = os.path.join(d, "vendor", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as o:
                o.write(c)
        base = dict(l.split() for l in rd(BASE).decode().splitlines() if l.strip())
        now = gen_hashes()
        for g, (ins, outs, cmd) in GEN.items():
            if now[g] != base[g]:
                run(cmd, cwd=m)
        cs = [f for f in sorted(os.listdir(m)) if f.endswith(".c") and f != "bin_handlebarsc.c"]
        inc = ["-I" + m, "-I" + os.path.join(d, "vendor", "sort_r"), "-I" + os.path.join(d, "vendor", "xxhash")]
        def cc(f):
            run(["gcc"] + COMMON + cflags + inc + ["-c", f, "-o", f[:-2] + ".o"], cwd=m)
        # largest first
        cs.sort(key=lambda f: -os.path.getsize(os.path.join(m, f)))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, cs))
        if os.path.exists(lib):
            os.unlink(lib)
        run(["ar", "rcs", lib] + [os.path.join(m, f[:-2] + ".o") for f in cs])
        with open(stamp, "w") as o:
            o.write(key)
    libs = ["-ltalloc", "-ljson-c", "-lyaml", "-llmdb", "-lpthread", "-lm", "-lrt"]
    if harness == "handlebarsc":
        out = os.path.join(d, "handlebarsc")
        k2 = key
        st2 = out + ".stamp"
        if not (os.path.exists(st2) and rd(st2).decode() == k2):
            run(["gcc"] + COMMON + cflags + ["-I" + m, os.path.join(m, "bin_handlebarsc.c"), "-o", out, lib] + lflags + libs)
            with open(st2, "w") as o:
                o.write(k2)
        return out
    hs = [os.path.join(VERIF, "harness", harness)] + [os.path.join(VERIF, "harness", e) for e in extra]
    hdrs = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith((".h", ".hpp"))]
    name = os.path.splitext(os.path.basename(harness))[0]
    out = os.path.join(d, name)
    k2 = h(key, *[rd(x) for x in hs + hdrs], repr(cxxflags), repr(ldflags))
    st2 = out + ".stamp"
    if not (os.path.exists(st2) and rd(st2).decode() == k2):
        objs = []
        def cxx(s):
            o = os.path.join(d, name + "." + os.path.basename(s) + ".o")
            if s.endswith(".c"):
                run(["gcc"] + COMMON + cflags + list(cxxflags) + ["-I" + m, "-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o])
            else:
                # the driver and the models are not instrumented, only the library and the C shim are
                run(["g++", "-std=gnu++20", "-DHAVE_CONFIG_H", "-O1", "-g0", "-w", "-fpermissive", "-pthread", "-I/usr/include/json-c"] +
                    list(cxxflags) + ["-I" + m, "-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cxx, hs))
        run(["g++", "-o", out] + objs + [lib] + lflags + list(ldflags) + libs)
        with open(st2, "w") as o:
            o.write(k2)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "--gen-hashes":
        for g, v in gen_hashes().items():
            print(g, v)
    else:
        print(build(sys.argv[1], sys.argv[2], sys.argv[3:]))
