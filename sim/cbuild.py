"""Builds the C library of /repo, with instrumentation, in a scratch directory."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/falcon/nistfalcon/src"
WRAP = ("randombytes getentropy getrandom open read close fopen fread fclose malloc calloc time clock_gettime gettimeofday clock getpid").split()
WRAP_SCHED = ("memcpy memmove memset memcmp pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock "
              "pthread_rwlock_wrlock pthread_spin_lock mtx_lock pthread_once call_once sched_yield").split()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def csim(out_dir, kind, eth):
    """kind: 'sched' (instrumented for preemption), 'asan' or 'plain'. Returns the path of the program."""
    name = "csim_%s%s" % (kind, "_eth" if eth else "")
    d = os.path.join(out_dir, name + ".d")
    os.makedirs(d, exist_ok=True)
    base = ["gcc", "-w", "-g", "-DALGNAME=falcon512int", "-I", SRC] + (["-DETHFALCON"] if eth else [])
    lib = {"sched": ["-O1", "-fsanitize=thread", "-fno-builtin"],
           "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
           "plain": ["-O2"]}[kind]
    own = {"sched": ["-O1"], "asan": ["-O1", "-fsanitize=address", "-DCSIM_PLAIN"], "plain": ["-O2", "-DCSIM_PLAIN"]}[kind]
    jobs, objs = [], []
    for c in sorted(glob.glob(SRC + "/*.c")):
        o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
        jobs.append(base + lib + ["-c", c, "-o", o])
        objs.append(o)
    o = os.path.join(d, "csim_main.o")
    jobs.append(base + own + ["-c", VERIF + "/csim/csim.c", "-o", o])
    objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(out_dir, name)
    wraps = WRAP + (WRAP_SCHED if kind == "sched" else [])
    run(["gcc", "-no-pie", "-o", exe] + objs + (["-fsanitize=address"] if kind == "asan" else [])
        + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-lm"])
    return exe


def clib(out_dir, eth, extra=(), name="libf"):
    """The library as a shared object, for the stream contexts of C04 and for ctypes."""
    so = os.path.join(out_dir, name + ("_eth" if eth else "") + ".so")
    run(["gcc", "-w", "-O2", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-DALGNAME=falcon512int", "-I", SRC] + list(extra)
        + (["-DETHFALCON"] if eth else []) + ["-o", so] + sorted(glob.glob(SRC + "/*.c")) + ["-lpthread", "-lm"])
    return so


def keccakf(out_dir):
    so = os.path.join(out_dir, "keccakf.so")
    run(["gcc", "-O3", "-shared", "-fPIC", "-o", so, VERIF + "/csim/keccakf.c"])
    return so


def refsolve(out_dir):
    so, d = os.path.join(out_dir, "refsolve.so"), VERIF + "/csim/refsolve/"
    run(["gcc", "-w", "-O2", "-shared", "-fPIC", "-fvisibility=hidden", d + "solve.c", d + "fft.c", d + "fpr.c", "-o", so, "-lm"])
    return so


if __name__ == "__main__":
    for k in ("sched", "asan", "plain"):
        for e in (False, True):
            print(csim(sys.argv[1], k, e))
