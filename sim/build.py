#!/usr/bin/env python3
"""Builds the simulator and, with it, the engine from /repo's current working tree."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MIDORI_REPO", "/repo")
WRAP = ("malloc calloc realloc reallocarray strdup strndup free regcomp regfree pthread_mutex_init pthread_mutex_lock "
        "pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy exit abort __assert_fail").split()
# what gcc merely warns about
# with threads: what orders them, and what the C library does with memory they may share
WRAP_THREADS = ("strlen strcmp strncmp strcasecmp strncasecmp memcmp bcmp strcpy strncpy strcat strchr strrchr strstr strtok gmtime localtime "
                "pthread_mutex_timedlock pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock "
                "pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock "
                "pthread_once pthread_self sched_yield").split()
LENIENT = ["-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
           "-Wno-return-type"]
NOBUILTIN = ["-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-fno-builtin-strdup",
             "-fno-builtin-strndup"]


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        sys.exit(2)
    return p.stdout


def build(out, variant="seq"):
    """returns the path of the simulator"""
    threads = variant == "threads"
    # the instrumentation of the thread sanitizer, but not its library: tseam.c takes its place
    san = ["-fsanitize=thread"] if threads else ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
    gen = os.path.join(out, "gen")
    obj = os.path.join(out, "obj")
    os.makedirs(gen, exist_ok=True)
    os.makedirs(obj, exist_ok=True)
    sh(["bison", "-d", "-o", "midorisql.tab.c", os.path.join(REPO, "src/parser/midorisql.y")], cwd=gen)
    sh(["flex", "--header-file=midorisql.yy.h", "-o", "midorisql.yy.c", os.path.join(REPO, "src/parser/midorisql.l")], cwd=gen)
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True)) if "/main/" not in s]
    srcs += [os.path.join(gen, "midorisql.tab.c"), os.path.join(gen, "midorisql.yy.c")]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen]
    base = ["clang", "-std=gnu11", "-D_XOPEN_SOURCE=700", "-D_GNU_SOURCE", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
    eng = ["clang", "-std=gnu17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"] + san + LENIENT + NOBUILTIN + inc
    jobs = []
    objs = []
    for s in srcs:
        o = os.path.join(obj, s.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append(eng + ["-c", s, "-o", o])
    for s in ("sut.c",):
        o = os.path.join(obj, s + ".o")
        objs.append(o)
        jobs.append(base + inc + ["-I" + HERE, "-c", os.path.join(HERE, s), "-o", o])
    for s in (("tseam.c",) if threads else ("seam.c",)):
        o = os.path.join(obj, s + ".o")
        objs.append(o)
        jobs.append(base + ["-I" + HERE, "-c", os.path.join(HERE, s), "-o", o])
    for s in ("model.cpp", "gen.cpp", "run.cpp", "ds.cpp", "main.cpp") + (("trun.cpp",) if threads else ()):
        o = os.path.join(obj, s + ".o")
        objs.append(o)
        jobs.append(["clang++", "-std=c++17", "-O1", "-g1", "-Wall", "-Wno-deprecated-volatile"] + (["-DTHREADS"] if threads else []) + ["-I" + HERE, "-c", os.path.join(HERE, s), "-o", o])
    # the slow ones first
    jobs.sort(key=lambda j: 0 if j[0] == "clang++" or "tab.c" in " ".join(j) or "yy.c" in " ".join(j) else 1)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))
    exe = os.path.join(out, "sim")
    sh(["clang++"] + ([] if threads else ["-fsanitize=address,bounds"]) + ["-o", exe] + objs +
       ["-Wl,--wrap=" + w for w in WRAP + (WRAP_THREADS if threads else [])] + ["-lpthread", "-lm"])
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(HERE), "build"), *sys.argv[2:3]))
