"""Builds the Go binding of /repo with a simulator under it (csim/gosim), and runs plans on it."""
import glob
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from sim import cbuild
from sim.cbuild import run, SRC, REPO, VERIF

GO = VERIF + "/csim/gosim"
SEAMS = "getentropy getrandom open open64 read close fopen fopen64 fread fclose time clock_gettime gettimeofday clock getpid".split()


def lib(d, asan):
    """libfalcon.a with the seams of libstub.c."""
    os.makedirs(d, exist_ok=True)
    flags = ["gcc", "-w", "-c", "-O2", "-g", "-fPIC", "-DALGNAME=falcon512int", "-I", SRC] + (["-fsanitize=address"] if asan else [])
    objs = []

    def one(c):
        o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
        run(flags + [c, "-o", o])
        nm = subprocess.run(["nm", o], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        ren = [x for s in SEAMS for x in ("--redefine-sym", "%s=sim_%s" % (s, s))]
        if any(l.endswith((" T randombytes", " W randombytes")) for l in nm):
            ren += ["--redefine-sym", "randombytes=real_randombytes"]
        run(["objcopy"] + ren + [o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(glob.glob(SRC + "/*.c"))))
    o = os.path.join(d, "verif_stub.o")
    run(["gcc", "-w", "-c", "-O2", "-fPIC", GO + "/libstub.c", "-o", o])
    a = os.path.join(d, "libfalcon.a")
    if os.path.exists(a):
        os.remove(a)
    run(["ar", "rcs", a] + objs + [o])
    return a


def env(d):
    e = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOCACHE=d + "/gocache", GOPATH=d + "/gopath", GO111MODULE="on",
             GOWORK="off", GOSUMDB="off", HOME=d)
    for k in ("CGO_CFLAGS", "CGO_LDFLAGS", "CC"):
        e.pop(k, None)
    return e


def build(out, asan=False, geth=False):
    """The server program. Returns its path."""
    d = os.path.join(out, "go_asan" if asan else "go")
    os.makedirs(d)
    e = env(d)

    def go(args, cwd):
        r = subprocess.run(["go"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise cbuild.BuildError("go %s\n%s" % (" ".join(args), r.stdout[-4000:]))
    w = os.path.join(d, "w")
    for p in ("sim", "simsync", "server") + (("gethcommon", "gethabi") if geth else ()):
        shutil.copytree(GO + "/" + p, os.path.join(w, p))
    with open(w + "/go.mod", "w") as f:
        f.write("module verifgo\n\ngo 1.25\n")
    mod = "github.com/ZKNoxHQ/ETHFALCON/falcon"
    with open(REPO + "/falcon/go.mod") as f:
        for l in f:
            if l.startswith("module"):
                mod = l.split()[1]
    shutil.copytree(GO + "/instr", d + "/instr")
    with open(d + "/instr/go.mod", "w") as f:
        f.write("module instr\n\ngo 1.25\n")
    go(["build", "-o", d + "/instrument", "."], d + "/instr")
    run([d + "/instrument", REPO + "/falcon", w + "/falcon", mod, "verifgo/falcon"])
    if geth:
        # the precompile, with what it reaches
        shutil.copytree(GO + "/gethx", d + "/gethx")
        with open(d + "/gethx/go.mod", "w") as f:
            f.write("module gethx\n\ngo 1.25\n")
        go(["build", "-o", d + "/extract", "."], d + "/gethx")
        os.makedirs(d + "/geth")
        run([d + "/extract", REPO + "/geth/contracts.go", d + "/geth/geth.go", mod])
        run([d + "/instrument", d + "/geth", w + "/geth", mod, "verifgo/falcon"])
    b = w + "/falcon/nistfalcon"
    os.makedirs(b, exist_ok=True)
    shutil.copytree(SRC, b + "/src", ignore=shutil.ignore_patterns("*.c", "*.o", "*.a"))
    # other files that cgo may include
    for f in glob.glob(REPO + "/falcon/*.[ch]"):
        shutil.copy(f, w + "/falcon/")
    os.makedirs(b + "/build", exist_ok=True)
    shutil.copy(lib(d + "/lib", asan), b + "/build/libfalcon.a")
    exe = os.path.join(out, "goserver_asan" if asan else "goserver")
    go(["build"] + (["-asan"] if asan else []) + (["-tags", "geth"] if geth else []) + ["-o", exe, "./server"], w)
    shutil.rmtree(d, ignore_errors=True)
    return exe


class Crash(Exception):
    pass


def execute(exe, plan, timeout=120, env=None):
    """Run one plan in a process of its own. Returns the result, or raises Crash."""
    e = {"PATH": os.environ["PATH"], "GODEBUG": "clobberfree=1", "GOTRACEBACK": "single", "GOMAXPROCS": "2",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"}
    e.update(env or {})
    try:
        r = subprocess.run([exe], input=json.dumps(plan), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Crash("no answer in %d s" % timeout)
    if r.returncode or not r.stdout.endswith("}\n"):
        err = [l for l in r.stderr.split("\n") if l.strip()]
        raise Crash("status %d: %s" % (r.returncode, " | ".join(err[:6])[:600]))
    R = json.loads(r.stdout[:-1].split("\n")[-1])
    R["Switched"] = R["Switched"] or []
    return R
