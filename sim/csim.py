"""Driver of the csim program (see csim/csim.c): plans in, histories out."""
import subprocess


class Dead(Exception):
    """The program ended in the middle of a session."""


def op(kind, rs=1, fail=None, alias=0, fill=0, a=None, b=None, n=None):
    """One library call. a, b: bytes or None (NULL pointer)."""
    return {"kind": kind, "rs": rs, "fail": fail, "alias": alias, "fill": fill,
            "a": None if a is None else a.hex(), "b": None if b is None else b.hex(), "n": n}


def _hx(x):
    return "-" if x is None else (x or ".")


def op_line(word, task, o):
    a = str(o["n"]) if o["kind"] == "rb" else _hx(o["a"])
    return "%s %d %s %s %s %d %d %s %s\n" % (word, task, o["kind"], o["rs"], o["fail"] or "-", o["alias"], o["fill"], a, _hx(o["b"]))


class Result:
    __slots__ = ("task", "op", "ret", "nrand", "nev", "o1same", "o2same", "lensame", "guard", "inchanged", "len", "inv", "resp", "osc", "osf", "o1", "o2")

    def __init__(self, f):
        (self.task, self.op, self.ret, self.nrand, self.nev, self.o1same, self.o2same, self.lensame, self.guard,
         self.inchanged, self.len, self.inv, self.resp, self.osc, self.osf) = map(int, f[1:16])
        self.o1 = bytes.fromhex(f[16].replace(".", ""))
        self.o2 = bytes.fromhex(f[17].replace(".", ""))

    def observable(self):
        """What the caller sees."""
        return (self.ret, self.o1same, self.o2same, self.lensame, self.guard, self.inchanged, self.len, self.o1, self.o2)


class Run:
    def __init__(self):
        self.res, self.sw, self.sites, self.os, self.bad, self.stat = {}, [], [], [], None, None
        self.draws = []  # (task, call, status, failures of the system's entropy so far, length, invocation, response, bytes)


class Engine:
    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, bufsize=1 << 20, env=self.env)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.stdin.close() if not self.p.stdin.closed else None
            self.p.wait()
            self.p.stdout.close()
            self.p.stderr.close()
            self.p = None

    def run(self, tasks, sws=(), chaos=None, first=0, trace=False, os=None, osfail=(), osuntil=0, limit=None, reuse=False):
        """Execute a plan in a pristine process. tasks: list of lists of op()."""
        if not self.p:
            self.start()
        L = []
        for t, ops in enumerate(tasks):
            for o in ops:
                L.append(op_line("op", t, o))
        for s in sws:
            L.append("sw %d %d %d %d\n" % tuple(s))
        if chaos:
            L.append("chaos %d %d\n" % tuple(chaos))
        if first:
            L.append("first %d\n" % first)
        if trace:
            L.append("trace\n")
        if os is not None:
            L.append("os %d\n" % os)
        for k in osfail:
            L.append("osfail %d\n" % k)
        if osuntil:
            L.append("osuntil %d\n" % osuntil)
        if reuse:
            L.append("reuse 1\n")
        if limit:
            L.append("limit %d\n" % limit)
        L.append("run\n")
        self.p.stdin.write("".join(L))
        self.p.stdin.flush()
        R = Run()
        while True:
            line = self.p.stdout.readline()
            if not line:
                err = self.p.stderr.read()
                self.close()
                raise Dead(err)
            f = line.split()
            if not f:
                continue
            w = f[0]
            if w == "end":
                break
            if w == "res":
                r = Result(f)
                R.res[(r.task, r.op)] = r
            elif w == "sw":
                R.sw.append([int(x) for x in f[1:]])
            elif w == "site":
                R.sites.append((int(f[1]), int(f[2]), [int(x) for x in f[3:]]))
            elif w == "draw":
                R.draws.append(tuple(int(x) for x in f[1:8]) + (bytes.fromhex(f[8][:-1]),))
            elif w == "os":
                R.os.append(bytes.fromhex(f[2]))
            elif w == "stat":
                R.stat = {"events": int(f[1]), "switches": int(f[2]), "hash": f[3], "os_calls": int(f[4]), "os_failed": int(f[5])}
            elif w in ("crash", "exit", "limit", "deadlock"):
                # the first of them says what happened
                if R.bad is None:
                    R.bad = " ".join(f)
        return R

    def tell(self, line):
        """fork N, or quit."""
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            self.p.stdout.readline()
        except BrokenPipeError:
            pass

    def exec(self, o):
        """Execute one call at once in the session's process."""
        if not self.p:
            self.start()
        try:
            self.p.stdin.write(op_line("exec", 0, o))
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            while line.startswith("os "):
                line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line.startswith("res"):
            err = self.p.stderr.read()
            self.p.wait()
            rc = self.p.returncode
            self.close()
            raise Dead("status %s\n%s" % (rc, err))
        return Result(line.split())
