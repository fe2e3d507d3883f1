"""Runs commands of pythonref/sign_cli.py, each in a forked child of a process that has imported everything.

Started by sim/cli.py, with the file system shim preloaded. Requests and answers: length and JSON, on the descriptors given."""
import ctypes
import io
import json
import os
import random
import signal
import struct
import sys


class Recorder:
    """Passes on the random bytes that signing asks for, and keeps them."""

    def __init__(self, f, log):
        self.f, self.log = f, log

    def __call__(self, n):
        b = self.f(n)
        self.log.append(bytes(b).hex())
        return b


def main():
    rfd, wfd, here, keccakf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    from sim import py, pyfalcon
    P = pyfalcon.Py(keccakf)
    import sign_cli
    shim = ctypes.CDLL(None)
    try:
        shim.fs_log.restype = ctypes.c_char_p
    except AttributeError:
        shim = None
    # finding f, g, F, G takes seconds: they come from a list (and if this does not take effect, from the generator)
    choice = [0]
    real_gen = getattr(P.falcon, "ntru_gen", None)

    def polys(n, key):
        """key: index, or [index, r]: f, g multiplied by x^r, F, G by x^-r, another private key of the same public key."""
        i, r = key if isinstance(key, list) else (key, 0)
        ks = P.polys[str(n)]
        out = []
        for p, e in zip(ks[i % len(ks)], (r, r, -r, -r)):
            e %= 2 * n
            p = [-x for x in p] if e >= n else list(p)
            s = e % n
            out.append([-x for x in p[n - s:]] + p[:n - s])
        return out

    def ntru_gen(n, *a, **k):
        return tuple(polys(n, choice[0])) if str(n) in P.polys else real_gen(n, *a, **k)
    draws = []

    def wrap(cls):
        f = cls.__dict__.get("sign")
        if f is None:
            return

        def sign(self, message, *a, **k):
            if a:
                a = (Recorder(a[0], draws),) + a[1:]
            elif "randombytes" in k:
                k = dict(k, randombytes=Recorder(k["randombytes"], draws))
            return f(self, message, *a, **k)
        cls.sign = sign

    r, w = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")
    while True:
        h = r.read(4)
        if len(h) < 4:
            return
        q = json.loads(r.read(struct.unpack("<I", h)[0]))
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            status, text, code = "exit", "", 0
            try:
                os.close(a)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                if (q.get("fs") or {}).get("gate"):
                    # it may have to wait for others
                    signal.setitimer(signal.ITIMER_PROF, 30)
                else:
                    signal.alarm(100)
                os.chdir(q["cwd"])
                os.environ.update(q.get("env", {}))
                if q.get("key") is not None and real_gen:
                    choice[0] = q["key"]
                    P.falcon.ntru_gen = ntru_gen
                if q.get("record"):
                    for c in (P.falcon.SecretKey, P.rec.RecoveryModeSecretKey, P.epe.EpervierSecretKey):
                        wrap(c)
                pyfalcon.Entropy.stream = random.Random("cli %s" % q.get("entropy", 0)).randbytes
                random.seed(q.get("entropy", 0))
                out = sys.stdout = io.StringIO()
                err = sys.stderr = io.StringIO()
                if q.get("fds"):
                    # also what other programs write to the descriptors
                    fds = [os.memfd_create("out"), os.memfd_create("err")]
                    os.dup2(fds[0], 1)
                    os.dup2(fds[1], 2)
                sys.argv = ["sign_cli.py"] + q["argv"]
                if shim and q.get("fs"):
                    for x in q["fs"].get("fail", []):
                        shim.fs_plan(ctypes.c_long(x[0]), ctypes.c_int(x[1]), ctypes.c_long(x[2]))
                    if q["fs"].get("space") is not None:
                        shim.fs_space(ctypes.c_long(q["fs"]["space"]))
                    if q["fs"].get("read"):
                        shim.fs_read(ctypes.c_long(q["fs"]["read"][0]), ctypes.c_int(q["fs"]["read"][1]))
                    if q["fs"].get("int") is not None:
                        shim.fs_sigint(ctypes.c_long(q["fs"]["int"]))
                    if q["fs"].get("gate"):
                        shim.fs_gate(*q["fs"]["gate"])
                    shim.fs_begin(os.fsencode(q["cwd"]))
                try:
                    try:
                        if q.get("save"):
                            # key files of another degree than the command line makes
                            n, v = q["save"]
                            c = {"falconrec": P.rec.RecoveryModeSecretKey, "epervier": P.epe.EpervierSecretKey}.get(v, P.falcon.SecretKey)
                            sk = c(n, polys=polys(n, q["key"]))
                            sign_cli.save_sk(sk, "private_key.pem", v)
                            pk = P.falcon.PublicKey(n, sk.h) if c is P.falcon.SecretKey else (P.rec.RecoveryModePublicKey if v == "falconrec" else P.epe.EpervierPublicKey)(n, sk.pk)
                            sign_cli.save_pk(pk, "public_key.pem", v)
                        else:
                            sign_cli.cli()
                    except SystemExit as e:
                        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                        if not isinstance(e.code, (int, type(None))):
                            text = str(e.code)
                    except BaseException as e:
                        status, code, text = "raised", 1, "%s: %s" % (type(e).__name__, e)
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                except KeyboardInterrupt:
                    # (it may arrive late)
                    status, code, text = "raised", 1, "KeyboardInterrupt: "
                # (an exception object keeps frames, frames keep files: they are closed by now)
                log = ""
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                if shim and q.get("fs"):
                    import gc
                    shim.fs_sigint(ctypes.c_long(-1))
                    gc.collect()
                    shim.fs_end()
                    log = shim.fs_log().decode()
                ans = {"status": status, "code": code, "error": text[:500], "out": out.getvalue(), "err": err.getvalue(), "log": log, "draws": draws}
                if q.get("fds"):
                    for x, f in zip(("out", "err"), fds):
                        os.lseek(f, 0, 0)
                        ans[x] += os.read(f, 1 << 24).decode(errors="replace")
                with os.fdopen(b, "wb") as f:
                    f.write(json.dumps(ans).encode())
            except BaseException as e:
                os.write(2, ("cliserver: %r\n" % (e,)).encode())
            finally:
                os._exit(0)
        os.close(b)
        with os.fdopen(a, "rb") as f:
            ans = f.read()
        _, st = os.waitpid(pid, 0)
        if not ans:
            sg = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            ans = json.dumps({"status": "hang" if sg in (signal.SIGALRM, signal.SIGPROF) else "died", "code": -1, "error": "signal %d" % sg, "out": "", "err": "", "log": "", "draws": []}).encode()
        w.write(struct.pack("<I", len(ans)) + ans)
        w.flush()


if __name__ == "__main__":
    main()
