#!/usr/bin/env python3
"""Build one harness from /repo's current working tree with ninja.

variants: sched  instrumented, linked with the deterministic scheduler
          asan   address+undefined sanitizers, ordinary threads
"""
import fcntl, os, subprocess, sys, glob, hashlib
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build") if REPO == "/repo" else os.path.join("/tmp/vbuild-" + REPO.strip("/").replace("/", "_"))
CORE = os.path.join(REPO, "framework/core")

COMMON = ("-I{c}/include -I{c} -I{v} -w -std=gnu++23 -fPIC -DPLAIN_HAS_PTHREAD=1 -fexceptions "
          "-DPLAIN_CORE -DPLAIN_OPEN_EPOLL").format(c=CORE, v=VERIF)
FLAGS = {
    "sched": "-O1 -g1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0",
    "asan": "-O1 -g1 -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer",
}

def lib_sources():
    src = os.path.join(CORE, "src")
    out = sorted(glob.glob(src + "/**/*.cc", recursive=True))
    return out

def build(name, variant, extra=()):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    lines = ["cxx = g++", "rule cc", "  command = $cxx -MD -MF $out.d $flags -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "rule link",
             "  command = rm -f $out && $cxx -rdynamic $in -o $out $lflags -ldl -lpthread"]
    objs = []
    flags = COMMON + " " + FLAGS[variant]
    for s in lib_sources():
        rel = os.path.relpath(s, CORE)
        o = os.path.join(d, "lib", rel + ".o")
        lines += [f"build {o}: cc {s}", f"  flags = {flags}"]
        objs.append(o)
    if variant == "sched":
        rt = os.path.join(d, "vsched.o")
        lines += [f"build {rt}: cc {VERIF}/rt/vsched.cc", f"  flags = {COMMON} -O2 -g1"]
        tail, lflags = [rt], ""
    else:
        rt = os.path.join(d, "vseq.o")
        lines += [f"build {rt}: cc {VERIF}/rt/vseq.cc", f"  flags = {COMMON} -O1 -g1"]
        tail, lflags = [rt], "-fsanitize=address,bounds"
    for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cc"))):
        n = os.path.basename(h)[:-3]
        ho = os.path.join(d, n + ".o")
        lines += [f"build {ho}: cc {h}", f"  flags = {flags}"]
        lines += [f"build {os.path.join(d, n)}: link {' '.join([ho] + objs + tail)}", f"  lflags = {lflags}"]
    lines.append("")
    exe = os.path.join(d, name)
    nf = os.path.join(d, "build.ninja")
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    txt = "\n".join(lines)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    p = subprocess.run(["ninja", "-C", d, "-f", nf, "-j", str(os.cpu_count() or 4), exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        keep, on = [], False
        for l in p.stdout.splitlines():
            if l.startswith("FAILED"): on = True
            elif l.startswith("["): on = False
            if on and not l.startswith("g++"): keep.append(l[:400])
        sys.stderr.write("\n".join(keep[:60]) + "\n")
        raise SystemExit(3)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "sched"))
