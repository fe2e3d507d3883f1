"""C12: key and signature files of the command line across crashes, power losses and disk errors."""
import errno
import os
import random
import shutil
import tempfile
from sim import cli, core
from sim.core import Outcome, digest

ID = "C12"
QUICK, THOROUGH = 60, 1500
ISOLATE = 200
RULE = ("A run is a working directory and 1-6 commands (genkeys in four versions, sign, verify). Any file operation of a command can fail "
        "(8 errors, short writes, a full disk, errors when reading), an interrupt (SIGINT) can arrive at any, and the process can be killed or the power lost before any operation or later. After a power loss, "
        "of the data not synced any prefix, torn or zeroed part is there, of the directory operations any prefix. For every command, besides "
        "the history that goes on, 4-20 other crash points are judged from the same log. Non-trivial: a fault fired or a crash point was judged.")
MEASURE = "hash of the commands, faults, operation logs and judged directory states"
TIME_UNIT = "file operations"
REAL = ["pythonref/sign_cli.py (whole commands) and all it uses, CPython's file layer"]
STUB = ["the disk (a log of the file operations, below the C library's system call wrappers)", "ntru_gen (keys from fixtures/pykeys.json)", "polyntt (numpy stand-in)"]
ASSUMPTIONS = ["a rename is atomic and directory operations reach the disk in the order they were made (journalled file system)",
               "two commands do not run in one directory at the same time", "the pair of both key files is not replaced atomically"]
VERSIONS = ["ethfalcon", "falcon", "falconrec", "epervier"]
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EMFILE, errno.EROFS, errno.EINTR, errno.EFBIG]


def names(files):
    """For the event log: temporary files may have any name."""
    return sorted((n if n in ("private_key.pem", "public_key.pem", "sig") else "?", digest(c)) for n, c in files.items())


def build(d):
    return cli.build(d)


class World:
    def __init__(self, ctx):
        self.srv = cli.Server(ctx)
        self.refs = {}
        self.dir = tempfile.mkdtemp(prefix="verif-c12-")
        self.tried = set()

    def close(self):
        self.srv.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self, rng):
        steps = []
        have, signed = False, None
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
            x = rng.random()
            s = {"cmd": "genkeys", "version": rng.choice(VERSIONS), "key": rng.randrange(2)} if x < .5 or not have else \
                {"cmd": "sign", "data": rng.randrange(3)} if x < .8 or signed is None else {"cmd": "verify", "data": signed if rng.random() < .8 else rng.randrange(3)}
            have = have or s["cmd"] == "genkeys"
            signed = s["data"] if s["cmd"] == "sign" else signed
            s["fail"], s["space"] = [], None
            y = rng.random()
            if y < .35:
                s["fail"] = [[rng.randrange(18), rng.choice(ERRNOS), rng.choice([-1, -1, 0, 1, 100, rng.randrange(9000)])] for _ in range(rng.choice([1, 1, 2]))]
            elif y < .45:
                s["space"] = rng.choice([0, 1, 100, rng.randrange(20000)])
            s["int"] = rng.randrange(18) if .45 < y < .55 else None
            s["read"] = [rng.randrange(8), rng.choice([errno.EIO, errno.EIO, errno.EINTR, errno.ENOMEM])] if .55 < y < .65 else None
            # how it ends: nothing, killed before operation k, power lost before it or afterwards
            s["end"] = rng.choice([None, None, "kill", "power", "power"])
            s["at"] = rng.choice([rng.randrange(20), rng.randrange(20), 999])
            s["seed"] = rng.getrandbits(30)
            s["probes"] = [[rng.randrange(20) if rng.random() < .7 else 999, rng.choice(["kill", "power", "power", "worst"]), rng.getrandbits(30)]
                           for _ in range(rng.choice([4, 10, 20]))]
            steps.append(s)
        return {"steps": steps}

    def argv(self, s):
        data = ["", "00", "a1b2c3" * 40][s.get("data", 0)] or "ff"
        if s["cmd"] == "genkeys":
            return ["genkeys", "--version", s["version"]]
        if s["cmd"] == "sign":
            return ["sign", "--data", data, "--privkey", "private_key.pem"]
        return ["verify", "--data", data, "--pubkey", "public_key.pem", "--signature", "sig"]

    def go(self, s, files, fs):
        cli.write_dir(self.dir, files)
        disk = cli.Disk(files)
        disk.start(self.dir)
        a = self.srv.command(self.argv(s), self.dir, key=s.get("key"), fs=fs)
        return disk, a

    def ref(self, s, files):
        """What the command writes when nothing goes wrong: (files, answer)."""
        need = {n: c for n, c in files.items() if n in (["private_key.pem"] if s["cmd"] == "sign" else ["public_key.pem", "sig"] if s["cmd"] == "verify" else [])}
        k = (tuple(self.argv(s)), s.get("key"), digest(sorted(need.items())))
        if k not in self.refs:
            if len(self.refs) > 3000:
                self.refs.clear()
            _, a = self.go(s, need, None)
            after = cli.read_dir(self.dir)
            new = {n: c for n, c in after.items() if need.get(n) != c and not n.endswith(".tmp")} if a["code"] == 0 else {}
            self.refs[k] = (new, a)
        return self.refs[k]

    def usable(self, pair, version):
        """The saved keys work together: None or what is wrong."""
        k = digest(sorted(pair.items()))
        if k in self.tried:
            return None
        if "private_key.pem" not in pair or "public_key.pem" not in pair:
            return "the files are not there: %s" % sorted(pair)
        cli.write_dir(self.dir, pair)
        for argv, want in ((["sign", "--data", "c0ffee", "--privkey", "private_key.pem"], None),
                           (["verify", "--data", "c0ffee", "--pubkey", "public_key.pem", "--signature", "sig"], True),
                           (["verify", "--data", "c0ffef", "--pubkey", "public_key.pem", "--signature", "sig"], False)):
            a = self.srv.command(argv, self.dir)
            if a["code"] or want is not None and ("is valid" in a["out"]) != want:
                return "%s: %s %s" % (" ".join(argv[:3]), a["error"], a["out"][-200:].strip())
        self.tried.add(k)
        return None

    def judge(self, state, old, new, done, saved, pairs, what):
        """state: the files after the crash."""
        for n in sorted(set(new) | (set(old) & {"private_key.pem", "public_key.pem", "sig"})):
            ok = [old.get(n)] if n not in new else [new[n]] if done else [old.get(n), new[n]]
            if state.get(n) not in ok:
                c = state.get(n)
                if n not in new:
                    return ("a file that the command has no business with is changed", "%s: %s" % (what, n))
                if done:
                    return ("a file of a command that ended successfully is lost", "%s: %s is %s" % (what, n, self.describe(c, old.get(n), new[n])))
                return ("a file is neither the old nor the new one", "%s: %s is %s" % (what, n, self.describe(c, old.get(n), new[n])))
        pub = state.get("public_key.pem")
        if pub is not None and pub in pairs and not any(pv == state.get("private_key.pem") or pv in saved for pv in pairs[pub]):
            return ("a public key is on the disk whose private key was never completely saved", what)
        return None

    @staticmethod
    def describe(c, old, new):
        if c is None:
            return "gone"
        return "%d bytes%s (old: %s, new: %d)%s" % (len(c), ", the old one" if c == old else "", "none" if old is None else len(old), len(new),
                                                    ", a prefix of the new one" if new.startswith(c) else "")

    def run(self, case):
        out = Outcome(nontrivial=False)
        files, saved, pairs = {}, set(), {}
        log = []
        for t, s in enumerate(case["steps"]):
            new, ra = self.ref(s, files)
            if s["cmd"] == "genkeys":
                if ra["code"] or not new:
                    out.bad = ("keys cannot be saved", "genkeys %s without any fault: %s" % (s["version"], ra["error"]))
                    break
                u = self.usable(new, s["version"])
                if u:
                    out.bad = ("saved keys do not work", "genkeys %s without any fault, then %s" % (s["version"], u))
                    break
                pairs.setdefault(new["public_key.pem"], set()).add(new["private_key.pem"])
            fs = {"fail": s["fail"], "space": s["space"], "int": s["int"], "read": s["read"]}
            disk, a = self.go(s, files, fs)
            lines = [l for l in a["log"].split("\n") if l]
            faulty = any(l.startswith(("fail", "badsync")) for l in lines) or (s["space"] is not None and s["space"] < 40000)
            for l in lines:
                f = l.split()
                if f[0] in ("fail", "badsync"):
                    core.add(out.faults, {"%s: %s" % (f[2] if f[0] == "fail" else "fsync", errno.errorcode.get(int(f[3]), f[3])): 1})
                    out.nontrivial = True
            what = "step %d: %s" % (t, " ".join(self.argv(s)[:3])[:60])
            if faulty:
                what += " with faults %s space %s" % (s["fail"], s["space"]) + "".join(" %s %s" % (x, s[x]) for x in ("int", "read") if s[x] is not None)
            core.add(out.counts, {"%s %s" % (s["cmd"], "succeeds" if a["code"] == 0 else "fails"): 1})
            out.simtime += len(lines)
            old = files
            # states along the log
            ops = [int(l.split(" ", 2)[1]) for l in lines]
            total = max(ops) + 1 if ops else 0
            points = [[p[0] if p[0] == 999 else p[0] % (total + 1), p[1], p[2]] for p in s["probes"]]
            end = None
            if s["end"]:
                end = [s["at"] if s["at"] == 999 else s["at"] % (total + 1), s["end"], s["seed"]]
                points.append(end)
            points.append([999, "worst", 0])
            points.sort(key=lambda p: p[0])
            i, final = 0, None
            model = disk
            judged = []
            for p in points:
                while i < len(lines) and (p[0] == 999 or ops[i] < p[0]):
                    model.line(lines[i])
                    i += 1
                r = random.Random(p[2])
                if not model.ok:
                    continue
                over = p[0] == 999 and a["code"] == 0
                if p[1] == "kill":
                    st = model.killed()
                elif p[1] == "worst":
                    st = {n: x.dur for n, x in model.dnames.items()}
                else:
                    st = model.powerless(r)
                judged.append((p, st, over))
                if p is end:
                    final = st
            while i < len(lines):
                model.line(lines[i])
                i += 1
            real = cli.read_dir(self.dir)
            if not model.ok or model.current() != real:
                # the log does not explain what is there (an operation the shim does not know): judge only what is there
                core.add(out.counts, {"commands the disk model cannot follow": 1})
                judged, final = [], real
                st = real
            log.append((a["code"], a["status"], [l.split()[0] for l in lines], names(real)))
            if a["code"] == 0 and ra["code"] == 0 and a["out"] != ra["out"]:
                out.bad = ("a command answers something else than it does without faults", "%s: %s" % (what, a["out"][-200:].strip()))
                break
            if a["code"] == 0:
                bad = [n for n in new if real.get(n) != new[n]]
                if bad:
                    out.bad = ("a failed save is reported as success" if faulty else "a command does not save its files", "%s: %s is %s" % (
                        what, bad[0], self.describe(real.get(bad[0]), old.get(bad[0]), new[bad[0]])))
                    break
            elif ra["code"] == 0 and not faulty:
                out.bad = ("a command fails without any fault", "%s, with the files %s that earlier crashes left: %s" % (what, sorted(old), a["error"]))
                break
            if a["status"] in ("died", "hang"):
                out.bad = ("a command dies", "%s: %s" % (what, a["error"]))
                break
            # what is there without a crash
            judged.append(([999, "none", 0], real, a["code"] == 0))
            for p, st, over in judged:
                if p[1] != "none":
                    core.add(out.faults, {"crash: " + {"kill": "process killed", "power": "power loss", "worst": "power loss, all unsynced lost"}[p[1]]: 1})
                    out.nontrivial = True
                b = self.judge(st, old, new, over, saved, pairs, "%s; %s %s" % (what, {"kill": "killed", "none": "no crash", "power": "power lost", "worst": "power lost"}[p[1]],
                                                                               "at the end" if p[0] == 999 else "before operation %d (%s)" % (p[0], lines[ops.index(p[0])].split()[0] if p[0] in ops else "-")))
                log.append((p, names(st)))
                if b and not out.bad:
                    out.bad = b
            if out.bad:
                break
            # how the history goes on
            files = dict(real if final is None else final)
            pv = files.get("private_key.pem")
            if pv is not None and any(pv in x for x in pairs.values()):
                saved.add(pv)
            if end and end[0] == 999 and a["code"] == 0 and s["cmd"] == "genkeys":
                saved.add(new["private_key.pem"])
        out.digest = digest(log, out.bad)
        out.key = digest(log)
        return out

    def shrink(self, c):
        S = c["steps"]
        for x in core.shrink_list(S, 1):
            yield dict(c, steps=x)
        for t, s in enumerate(S):
            alt = [dict(s, probes=p) for p in core.shrink_list(s["probes"])]
            alt += [dict(s, fail=p) for p in core.shrink_list(s["fail"])]
            if s["end"]:
                alt.append(dict(s, end=None))
            for x in ("int", "read"):
                if s[x] is not None:
                    alt.append(dict(s, **{x: None}))
            if s["space"] is not None:
                alt.append(dict(s, space=None))
            for a in alt:
                yield dict(c, steps=S[:t] + [a] + S[t + 1:])
