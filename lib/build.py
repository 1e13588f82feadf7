"""Builds /repo's current sources (a copy of them) together with a harness, outside /repo."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4

CC = "gcc"
COMMON = ["-g", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H", "-I/usr/include/tirpc", "-I/usr/include/libxml2", "-w", "-Werror=implicit-function-declaration"]
VARIANTS = {
    # memory-error instrumented build: every harness that explores inputs, histories and faults
    "asan": {"cflags": ["-O1", "-fsanitize=address"], "ld": ["-fsanitize=address"]},
    # the same code with every memory access handed to our own scheduler (lib is compiled for the thread
    # sanitizer, but linked with harness/sched.c instead of its run time)
    "sched": {"cflags": ["-O1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-fno-builtin"],
              "ld": ["-Wl,--wrap=" + f for f in ("memset memcpy memmove memcmp strlen strcmp strncmp strcpy strchr pthread_mutex_lock pthread_mutex_trylock "
                     "pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock "
                     "pthread_rwlock_unlock mtx_lock mtx_unlock pthread_once call_once sched_yield pthread_yield thrd_yield usleep nanosleep pthread_self").split()]},
    "plain": {"cflags": ["-O1"], "ld": []},
}
LIBS = ["-ltirpc", "-lxml2", "-lyaml", "-ldl", "-lm", "-lpthread"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None, out=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    if out:
        with open(out, "wb") as f:
            f.write(r.stdout)


def configured(template, saved, out):
    """config.status in miniature: fill a *.h.in with the values configure found here."""
    vals = {}
    for line in open(saved):
        m = re.match(r"#define (\w+)(?:\s+(.*))?$", line.rstrip("\n"))
        if m:
            vals[m[1]] = m[2] or ""
    with open(out, "w") as f:
        for line in open(template):
            m = re.match(r"#undef (\w+)", line)
            if m:
                f.write("#define %s %s\n" % (m[1], vals[m[1]]) if m[1] in vals else "/* #undef %s */\n" % m[1])
            else:
                f.write(line)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def library(variant, verbose=False):
    """-> (directory with headers and objects, [objects])"""
    v = VARIANTS[variant]
    src = os.path.join(REPO, "src")
    names = [n for n in os.listdir(src) if re.search(r"\.(c|h|l|y|sh|h\.in)$", n)
             and not re.search(r"\.(tab|lex)\.[ch]$", n) and n not in ("mr_dwarf.c", "mr_pp.h", "mr_config.h", "mr_export.h")]
    cfg = [os.path.join(VERIF, "config", n) for n in ("mr_config.h", "mr_export.h")]
    key = digest([os.path.join(src, n) for n in names] + cfg + [os.path.abspath(__file__)], variant)
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            for old in os.listdir(BUILD):
                if old.startswith("lib-%s-" % variant):
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            os.makedirs(d)
            for n in names:
                shutil.copy(os.path.join(src, n), os.path.join(d, n))
            run(["bash", "./mr_pp.sh", "256"], cwd=d, out=os.path.join(d, "mr_pp.h"))
            for n in ("mr_config.h", "mr_export.h"):
                configured(os.path.join(d, n + ".in"), os.path.join(VERIF, "config", n), os.path.join(d, n))
            units = [n[:-2] for n in names if n.endswith(".c")]
            for n in names:
                if n.endswith(".y"):
                    b = n[:-2]
                    run(["bison", "-d", "-o", b + ".tab.c", n], cwd=d)
                    units.append(b + ".tab")
                if n.endswith(".l"):
                    b = n[:-2]
                    run(["flex", "--header-file=" + b + ".lex.h", "-o", b + ".lex.c", n], cwd=d)
                    units.append(b + ".lex")

            def cc(u):
                extra = ["-ffast-math"] if u == "mr_value" else []
                run([CC] + COMMON + v["cflags"] + extra + ["-I.", "-c", u + ".c", "-o", u + ".o"], cwd=d)
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(cc, units))
            with open(os.path.join(d, "units"), "w") as f:
                f.write("\n".join(units))
            open(os.path.join(d, "done"), "w").close()
        units = open(os.path.join(d, "units")).read().split()
    return d, [os.path.join(d, u + ".o") for u in units]


def harness(name, variant="asan", sources=None, defines=()):
    """Build harness/<name>.c (and extra sources) against the library; -> path of the binary."""
    d, objs = library(variant)
    v = VARIANTS[variant]
    hdir = os.path.join(VERIF, "harness")
    srcs = sources or [name + ".c"]
    deps = [os.path.join(hdir, n) for n in os.listdir(hdir) if n.endswith(".h")] + [os.path.join(hdir, s) for s in srcs]
    key = digest(deps, d + " ".join(defines))
    b = os.path.join(d, "bin-%s-%s" % (name, key))
    if not os.path.exists(b):
        # the harness itself is never instrumented for the scheduler
        cflags = ["-O1"] if variant == "sched" else v["cflags"]
        hobjs = []

        def cc(s):
            o = os.path.join(d, "h-%s-%s-%d.o" % (name, os.path.basename(s), os.getpid()))
            # but what its threads do is, as the macros of the library are part of it
            run([CC] + COMMON + (v["cflags"] if s.startswith("ops_") else cflags) + ["-D" + x for x in defines] + ["-I" + hdir, "-I" + d, "-c", os.path.join(hdir, s), "-o", o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            hobjs = list(ex.map(cc, srcs))
        tmp = b + ".%d" % os.getpid()
        run([CC, "-rdynamic"] + v["ld"] + hobjs + objs + LIBS + ["-o", tmp])
        os.rename(tmp, b)
        for o in hobjs:
            os.unlink(o)
    return b


if __name__ == "__main__":
    for variant in sys.argv[1:] or ["asan"]:
        print(library(variant)[0])
