"""The command line of /repo (pythonref/sign_cli.py) as a program that a simulation runs, and the file system under it.

The commands run for real, on a real scratch directory; csim/fsshim.c logs what they do to it and makes operations fail.
From the log follows what a crash or a power loss at any point leaves behind."""
import errno
import json
import os
import select
import struct
import subprocess
import sys
from sim import cbuild, py


def build(d):
    so = d + "/fsshim.so"
    cbuild.run(["gcc", "-w", "-O2", "-shared", "-fPIC", "-o", so, cbuild.VERIF + "/csim/fsshim.c", "-ldl"])
    return {"shim": so, "keccakf": cbuild.keccakf(d)}


class Server:
    def __init__(self, ctx, shim=True, env=None, gated=False):
        self.ctx, self.shim, self.env, self.gated = ctx, shim, env or {}, gated
        self.p = None

    def start(self):
        a, b = os.pipe()
        c, d = os.pipe()
        env = dict(os.environ, VERIF_REPO=py.REPO, **self.env)
        if self.shim:
            env["LD_PRELOAD"] = self.ctx["shim"]
        more = ()
        if self.gated:
            # the commands stop before every file operation until they are told to go on
            (gi, self.go), (self.at, go) = os.pipe(), os.pipe()
            self.gate = more = (gi, go)
        self.p = subprocess.Popen([sys.executable, py.VERIF + "/sim/cliserver.py", str(a), str(d), py.VERIF, self.ctx["keccakf"]],
                                  pass_fds=(a, d) + more, env=env, stdin=subprocess.DEVNULL)
        for f in (a, d) + more:
            os.close(f)
        self.w, self.r = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def close(self):
        if self.p:
            self.w.close()
            self.r.close()
            if self.gated:
                os.close(self.go)
                os.close(self.at)
            self.p.wait()
            self.p = None

    def begin(self, argv, cwd, **k):
        """Start a command that stops at the gate before every file operation."""
        if not self.p:
            self.start()
        k["fs"] = dict(k.get("fs") or {}, gate=self.gate)
        self.send(dict(k, argv=argv, cwd=cwd))

    def arrive(self):
        """-> (what is next at the gate, None) or (None, the answer)."""
        r, _, _ = select.select([self.at, self.r], [], [])
        if self.at in r:
            return os.read(self.at, 1).decode(), None
        return None, self.answer()

    def proceed(self, c=b"g"):
        os.write(self.go, c)

    def command(self, argv, cwd, **k):
        if not self.p:
            self.start()
        self.send(dict(k, argv=argv, cwd=cwd))
        return self.answer()

    def send(self, q):
        q = json.dumps(q).encode()
        self.w.write(struct.pack("<I", len(q)) + q)
        self.w.flush()

    def answer(self):
        h = self.r.read(4)
        if len(h) < 4:
            self.p.wait()
            raise RuntimeError("the command server ended")
        return json.loads(self.r.read(struct.unpack("<I", h)[0]))


class Inode:
    __slots__ = ("dur", "pend", "cur", "lost")

    def __init__(self, content=b""):
        self.dur = bytes(content)   # what survives
        self.pend = []              # [(op number, "w", offset, data) or (op number, "t", length)] since
        self.cur = bytes(content)   # what programs see
        self.lost = False

    def apply(self, c, o):
        if o[1] == "t":
            return c[:o[2]].ljust(o[2], b"\0")
        off, data = o[2], o[3]
        return c[:off].ljust(off, b"\0") + data + c[off + len(data):]

    def do(self, o):
        self.pend.append(o)
        self.cur = self.apply(self.cur, o)

    def sync(self):
        if not self.lost:
            self.dur, self.pend = self.cur, []

    def after(self, rng):
        """The content after a power loss."""
        w = rng.randrange(6)
        if w == 0 or not self.pend:
            return self.dur
        if w == 1:
            return self.cur
        if w == 2:
            # the size reached the disk, the data did not
            n = len(self.cur)
            c = self.dur[:n].ljust(n, b"\0")
            return c
        k = rng.randrange(len(self.pend) + 1)
        c = self.dur
        for o in self.pend[:k]:
            c = self.apply(c, o)
        if w >= 4 and k < len(self.pend):
            o = self.pend[k]
            if o[1] == "w" and o[3]:
                n = rng.randrange(len(o[3]))
                if w == 5:
                    # blocks reach the disk in any order
                    n = n // 512 * 512
                    c = self.apply(c, o[:3] + (bytes(n) + o[3][n:],))
                else:
                    c = self.apply(c, o[:3] + (o[3][:n],))
        return c


class Disk:
    """The state of a directory, current and durable. Directory operations reach the disk in order, file contents in any."""

    def __init__(self, files=None):
        self.inodes, self.names, self.dnames, self.dpend = {}, {}, {}, []
        self.by = {}
        for n, c in (files or {}).items():
            i = Inode(c)
            self.names[n] = self.dnames[n] = i
        self.ok = True

    def start(self, path):
        """The inode numbers that the files have now."""
        self.by = {}
        for n, i in self.names.items():
            try:
                self.by[str(os.stat(os.path.join(path, n)).st_ino)] = i
            except OSError:
                self.ok = False

    def line(self, l):
        f = l.split(" ", 3)
        k = f[0]
        no = int(f[1]) if len(f) > 1 else 0
        if k == "create":
            i = self.by[f[2]] = Inode()
            if len(f) > 3 and f[3]:
                self.entry(("set", f[3], i))
        elif k == "trunc":
            i = self.by.get(f[2])
            if i:
                i.do((no, "t", int(f[3])))
            else:
                self.ok = False
        elif k == "write":
            i = self.by.get(f[2])
            off, data = f[3].split(" ")
            if i:
                i.do((no, "w", int(off), bytes.fromhex(data)))
            else:
                self.ok = False
        elif k == "sync":
            i = self.by.get(f[2])
            if i:
                i.sync()
            else:
                self.dsync()
        elif k == "badsync":
            i = self.by.get(f[2])
            if i and int(f[3]) in (errno.EIO, errno.ENOSPC, errno.EDQUOT):
                # the kernel forgets the pages it could not write
                i.lost = True
        elif k == "syncall":
            for i in self.by.values():
                i.sync()
            self.dsync()
        elif k == "rename" or k == "link":
            x, y = l.split(" ", 2)[2].split("|")
            i = self.names.get(x)
            if i is None:
                self.ok = False
                return
            self.entry(("mv" if k == "rename" else "set", y, i, x))
        elif k == "unlink":
            x = l.split(" ", 2)[2]
            if x in self.names:
                self.entry(("del", x))
            else:
                self.ok = False

    @staticmethod
    def change(d, e):
        if e[0] == "del":
            d.pop(e[1], None)
        else:
            d[e[1]] = e[2]
            if e[0] == "mv" and e[3] != e[1]:
                d.pop(e[3], None)

    def entry(self, e):
        self.change(self.names, e)
        self.dpend.append(e)

    def dsync(self):
        self.dnames = dict(self.names)
        self.dpend = []

    def current(self):
        return {n: i.cur for n, i in self.names.items()}

    def killed(self):
        """After the death of the process."""
        return self.current()

    def powerless(self, rng):
        """After a power loss."""
        d = dict(self.dnames)
        w = rng.randrange(4)
        k = len(self.dpend) if w == 0 else 0 if w == 1 else rng.randrange(len(self.dpend) + 1)
        for e in self.dpend[:k]:
            self.change(d, e)
        memo = {}
        out = {}
        for n, i in d.items():
            if id(i) not in memo:
                memo[id(i)] = i.after(rng)
            out[n] = memo[id(i)]
        return out


def read_dir(path):
    out = {}
    for base, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, path)] = h.read()
            except OSError:
                pass
    return out


def write_dir(path, files):
    for base, dirs, fs in os.walk(path, topdown=False):
        for f in fs:
            os.unlink(os.path.join(base, f))
        for x in dirs:
            os.rmdir(os.path.join(base, x))
    for n, c in files.items():
        p = os.path.join(path, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(c)
