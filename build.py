"""Builds the simulator binaries from the current working tree of /repo.
The library is compiled from its own sources (one translation unit, as exe/compile-c does) in two variants:
  tsan     -O2 with access instrumentation (gcc -fsanitize=thread, but linked to the simulator's own callbacks)
  release  -O3 as shipped, no instrumentation (uninitialised locals hold a pattern, so that their use repeats)
and every symbol through which it reaches threads, clock, allocator or files is renamed to the simulator's.
Everything is cached under build/ by the content of /repo/source and of the simulator sources."""
import hashlib, os, shutil, subprocess, sys, fcntl, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NAMES = """malloc calloc realloc free strdup strndup reallocarray aligned_alloc posix_memalign
pthread_create pthread_join pthread_exit pthread_detach pthread_self pthread_equal pthread_cancel
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait pthread_once
pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific
sem_init sem_destroy sem_wait sem_trywait sem_post
nanosleep clock_nanosleep usleep sleep sched_yield clock_gettime gettimeofday time clock
fopen fclose fwrite fread fseek fseeko ftell ftello rewind feof ferror clearerr fflush fgetc getc fgets fileno fsync fdatasync ungetc setvbuf fputc fputs
fprintf vfprintf printf vprintf puts putchar perror remove unlink rename access
memcpy memmove memset memcmp snprintf sprintf exit abort system""".split()
CORE = ["core.c", "file.c", "runner.c"]
CFLAGS = ("-funsigned-char -std=c17 -Wno-pointer-sign -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-math-errno -fno-builtin -fpic -g "
          "-fno-stack-protector -fno-omit-frame-pointer").split()
VAR = {"tsan": ["-O2", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-Dsp_channel_count_limit=3"], "release": ["-O3", "-ftrivial-auto-var-init=pattern"]}
# only for the library: indices outside of arrays of known size and writes past arrays on the stack stop the run
ALT = ["ops", "common"]  # scenario files that are linked a second time with a second copy of the library
LIBVAR = {"tsan": ["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error", "-fstack-protector-strong"], "release": []}


def walk(d):
    for p, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            yield os.path.join(p, f)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def sources():
    out = []
    for d in ("source/c", "source/c-precompiled/sph-sp"):
        out += [p for p in walk(os.path.join(REPO, d)) if p.endswith((".c", ".h"))]
    return out


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise RuntimeError("build failed: " + cmd[0])
    return r.stdout


def build(variants=("tsan", "release"), only=None):
    """returns {variant: path of binary}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mine = [os.path.join(VERIF, "sim", f) for f in CORE + ["sim.h", "internal.h"]] + list(walk(os.path.join(VERIF, "scen"))) + [os.path.abspath(__file__)]
    key = digest(sources() + mine)
    out = os.path.join(BUILD, key)
    res = {v: os.path.join(out, "sim-" + v) for v in variants}
    if all(os.path.exists(p) for p in res.values()):
        os.utime(out)
        return res
    # keep the cache small
    old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if len(d) == 20), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
    try:
        inc = os.path.join(tmp, "include")
        os.mkdir(inc)
        os.symlink(os.path.join(REPO, "source/c/foreign/sph-sc-lib/sph-sp"), os.path.join(inc, "sph"))
        with open(os.path.join(tmp, "redef"), "w") as f:
            for n in NAMES:
                f.write("%s sim_%s\n" % (n, n))
            f.write("__stack_chk_fail sim_stack_chk_fail\n")
        incs = ["-I" + inc] + ["-I" + os.path.join(REPO, d) for d in ("source/c/foreign", "source/c/foreign/sph-sc-lib", "source/c-precompiled")]
        scen = sorted(f for f in os.listdir(os.path.join(VERIF, "scen")) if f.endswith(".c"))
        jobs = []
        for v in variants:
            o = os.path.join(tmp, "lib-%s.o" % v)
            jobs.append(["gcc", "-c", os.path.join(REPO, "source/c-precompiled/sph-sp/main.c"), "-o", o] + CFLAGS + VAR[v] + LIBVAR[v] + incs)
            zero = ["-ftrivial-auto-var-init=zero"]
            jobs.append(["gcc", "-c", os.path.join(REPO, "source/c-precompiled/sph-sp/main.c"), "-o", os.path.join(tmp, "alt_lib-%s.o" % v)] + CFLAGS + VAR[v] + LIBVAR[v] + zero + ["-O0"] + incs)
            for s in scen + ["alt_%s.c" % x for x in ALT]:
                alt = s.startswith("alt_")
                jobs.append(["gcc", "-c", os.path.join(VERIF, "scen", s[4:] if alt else s), "-o", os.path.join(tmp, "%s-%s.o" % (s[:-2], v))] +
                            [x for x in CFLAGS if x != "-w"] + ["-Wno-unused-result"] + VAR[v] + (zero if alt else []) + ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scen")] + incs)
            for c in CORE:
                jobs.append(["gcc", "-c", os.path.join(VERIF, "sim", c), "-o", os.path.join(tmp, "%s-%s.o" % (c[:-2], v)), "-O2", "-g", "-std=gnu17", "-fno-pie"] +
                            (["-DSIM_TSAN"] if v == "tsan" else []))
        procs = []
        for j in jobs:
            procs.append((j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            while sum(p.poll() is None for _, p in procs) >= 10:
                next(p for _, p in procs if p.poll() is None).wait()
        for j, p in procs:
            t = p.communicate()[0]
            if p.returncode:
                sys.stderr.write(" ".join(j) + "\n" + t[-6000:] + "\n")
                raise RuntimeError("compilation failed")
            if t.strip() and os.environ.get("SIM_WARN"):
                sys.stderr.write(t)
        for v in variants:
            run(["objcopy", "--redefine-syms=" + tmp + "/redef", "%s/lib-%s.o" % (tmp, v)])
            so = ["%s/%s-%s.o" % (tmp, s[:-2], v) for s in scen]
            for o in so:
                run(["objcopy", "--redefine-syms=" + tmp + "/redef", "--weaken", o])
            # the second copy: everything it defines gets another name
            ao = ["%s/alt_lib-%s.o" % (tmp, v)] + ["%s/alt_%s-%s.o" % (tmp, x, v) for x in ALT]
            run(["objcopy", "--redefine-syms=" + tmp + "/redef", ao[0]])
            for o in ao[1:]:
                run(["objcopy", "--redefine-syms=" + tmp + "/redef", "--weaken", o])
            names = {l.split()[0] for o in ao for l in run(["nm", "-P", "--defined-only", "-g", o]).splitlines()}
            with open("%s/alt-%s" % (tmp, v), "w") as f:
                f.write("".join("%s alt_%s\n" % (n, n) for n in sorted(names)))
            for o in ao:
                run(["objcopy", "--redefine-syms=%s/alt-%s" % (tmp, v), o])
            # scenario tables must not be weak duplicates: only library headers define the same symbols more than once
            co = ["%s/%s-%s.o" % (tmp, c[:-2], v) for c in CORE]
            b = "%s/sim-%s" % (tmp, v)
            run(["gcc", "-no-pie", "-o", b, "%s/lib-%s.o" % (tmp, v)] + so + co + ao + ["-lm", "-lpthread"])
            shutil.move(b, res[v])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    for v, p in build().items():
        print(v, p)
