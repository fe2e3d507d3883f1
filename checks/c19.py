"""C19: commands that run at the same time in one directory."""
import re
import shutil
import tempfile
from sim import cli, core
from sim.core import Outcome, digest

ID = "C19"
QUICK, THOROUGH = 60, 1500
ISOLATE = 200
RULE = ("A run is a working directory with or without a key pair and a signature, and 2-3 commands in it (genkeys in four versions, sign, sign_tx, verify) that "
        "run at the same time as processes of their own: each stops before every file operation in the directory (open, read, write, truncate, "
        "synchronise, close, rename, unlink, stat), and a drawn schedule decides which one goes on; processes are killed at drawn operations. After every "
        "operation the files are judged, at the end the results. Non-trivial: a command was interrupted by another one between two of its operations.")
MEASURE = "hash of the commands, the order in which their operations happened, and the directory states"
TIME_UNIT = "file operations"
REAL = ["pythonref/sign_cli.py (whole commands) and all it uses, CPython's file layer, the file system"]
STUB = ["process scheduler", "ntru_gen (keys from fixtures/pykeys.json)", "polyntt (numpy stand-in)"]
ASSUMPTIONS = ["an operation of the file system is atomic", "the two files of a pair are not replaced together: with two genkeys at once they may come from different ones"]
VERSIONS = ["ethfalcon", "falcon", "falconrec", "epervier"]
WRITES = {"genkeys": ["private_key.pem", "public_key.pem"], "sign": ["sig"], "sign_tx": [], "verify": []}
DATA = ["ff", "00", "a1b2c3" * 40]


def build(d):
    return cli.build(d)


class World:
    def __init__(self, ctx):
        self.srv = cli.Server(ctx)
        self.par = [cli.Server(ctx, gated=True) for _ in range(3)]
        self.refs = {}
        self.dir = tempfile.mkdtemp(prefix="verif-c19-")
        self.alone = tempfile.mkdtemp(prefix="verif-c19-")

    def close(self):
        for s in [self.srv] + self.par:
            s.close()
        for d in (self.dir, self.alone):
            shutil.rmtree(d, ignore_errors=True)

    def case(self, rng):
        nc = rng.choice([2, 2, 2, 3])
        x = rng.random()
        kinds = ["genkeys"] * nc if x < .25 else ["sign"] * nc if x < .55 else [rng.choice(["genkeys", "genkeys", "sign", "sign", "sign", "verify", "verify", "sign_tx"]) for _ in range(nc)]
        have = rng.random() < .8 or "genkeys" not in kinds
        cmds = []
        for k in kinds:
            c = {"cmd": k}
            if k == "genkeys":
                c.update(version=rng.choice(VERSIONS), key=rng.randrange(2))
            else:
                c.update(data=rng.randrange(3))
            c["kill"] = rng.randrange(14) if rng.random() < .12 else None
            cmds.append(c)
        # [command, for how many operations]
        w = rng.choice([1, 1, 2, 4, 12])
        return {"first": {"version": rng.choice(VERSIONS), "key": rng.randrange(2), "data": rng.choice([None, 0, 0, 1, 2])} if have else None,
                "cmds": cmds, "plan": [[rng.randrange(nc), rng.randint(1, w)] for _ in range(rng.choice([2, 4, 10, 40]))]}

    def argv(self, s):
        if s["cmd"] == "genkeys":
            return ["genkeys", "--version", s["version"]]
        if s["cmd"] == "sign":
            return ["sign", "--data", DATA[s["data"]], "--privkey", "private_key.pem"]
        if s["cmd"] == "sign_tx":
            return ["sign_tx", "--data", DATA[s["data"]], "--privkey", "private_key.pem", "--nonce", "05", "--to", "77" * 20, "--value", "10"]
        return ["verify", "--data", DATA[s["data"]], "--pubkey", "public_key.pem", "--signature", "sig"]

    def ref(self, s, files):
        """The command alone, with these files: (exit code, output, the files it writes)."""
        need = {n: c for n, c in files.items() if c is not None}
        k = (tuple(self.argv(s)), s.get("key"), digest(sorted(need.items())))
        if k not in self.refs:
            if len(self.refs) > 5000:
                self.refs.clear()
            cli.write_dir(self.alone, need)
            a = self.srv.command(self.argv(s), self.alone, key=s.get("key"))
            after = cli.read_dir(self.alone)
            self.refs[k] = (a["code"], a["out"], {n: after.get(n) for n in WRITES[s["cmd"]]} if a["code"] == 0 else {}, a["error"])
        return self.refs[k]

    def run(self, case):
        out = Outcome(nontrivial=False)
        files = {}
        f = case["first"]
        if f:
            code, _, new, err = self.ref({"cmd": "genkeys", "version": f["version"], "key": f["key"]}, {})
            if code:
                return self.end(out, [], ("keys cannot be saved", "genkeys %s alone: %s" % (f["version"], err)))
            files.update(new)
            if f["data"] is not None:
                files.update(self.ref({"cmd": "sign", "data": f["data"]}, {"private_key.pem": files["private_key.pem"]})[2])
        cmds = case["cmds"]
        # what may be in the files, and what the commands may answer
        may = {n: {files.get(n)} for n in ("private_key.pem", "public_key.pem", "sig")}
        writers = {n: [] for n in may}
        pairs = {}
        if f:
            pairs[files["public_key.pem"]] = {files["private_key.pem"]}
        answers = [set() for _ in cmds]
        outputs = [dict() for _ in cmds]
        for kind in ("genkeys", "sign", "sign_tx", "verify"):
            for i, c in enumerate(cmds):
                if c["cmd"] != kind:
                    continue
                if kind == "genkeys":
                    inputs = [{}]
                elif kind in ("sign", "sign_tx"):
                    inputs = [{"private_key.pem": x} for x in may["private_key.pem"]]
                else:
                    inputs = [{"public_key.pem": x, "sig": y} for x in may["public_key.pem"] for y in may["sig"]]
                for need in sorted(inputs, key=lambda d: sorted((n, v or b"") for n, v in d.items())):
                    code, text, new, err = self.ref(c, need)
                    answers[i].add((code, text))
                    for n, v in new.items():
                        outputs[i].setdefault(n, set()).add(v)
                    if kind == "genkeys":
                        pairs.setdefault(new.get("public_key.pem"), set()).add(new.get("private_key.pem"))
            for i, c in enumerate(cmds):
                if c["cmd"] == kind:
                    for n, v in outputs[i].items():
                        may[n] |= v
                        writers[n].append(i)
        cli.write_dir(self.dir, files)
        # the simulation
        log, saved, bad = [], set(), None
        if f:
            saved.add(files["private_key.pem"])
        at, done, count = {}, {}, [0] * len(cmds)
        for i, c in enumerate(cmds):
            self.par[i].begin(self.argv(c), self.dir, key=c.get("key"))
        for i in range(len(cmds)):
            self.wait(i, at, done)
        plan = [list(p) for p in case["plan"]]
        last = None
        while at:
            if len(log) > 8000:
                bad = bad or ("a command does not end", "after %d operations of the commands: %s" % (sum(count), count))
                for i in list(at):
                    self.par[i].proceed(b"k")
                    done[i] = self.par[i].arrive()[1]
                break
            while plan and (plan[0][1] < 1 or plan[0][0] not in at):
                plan.pop(0)
            if plan:
                i = plan[0][0]
                plan[0][1] -= 1
            else:
                # (in turn: one may wait for what another one has)
                i = min(at, key=lambda x: (x - (-1 if last is None else last) - 1) % len(cmds))
            if last is not None and i != last and last in at and count[last]:
                out.nontrivial = True
                core.add(out.faults, {"a command is interrupted by another one": 1})
            last = i
            if cmds[i]["kill"] == count[i]:
                core.add(out.faults, {"a command is killed": 1})
                self.par[i].proceed(b"k")
            else:
                self.par[i].proceed()
            count[i] += 1
            log.append((i, at.pop(i)))
            self.wait(i, at, done)
            real = cli.read_dir(self.dir)
            log.append(sorted((n, digest(c)) for n, c in real.items() if n in may))
            where = "after operation %d of command %d (%s)" % (count[i], i, " ".join(self.argv(cmds[i])[:3])[:40])
            bad = bad or self.judge(real, may, saved, pairs, where)
            pv = real.get("private_key.pem")
            if pv is not None:
                saved.add(pv)
        real = cli.read_dir(self.dir)
        finished = {n: [] for n in may}
        for i, c in enumerate(cmds if len(log) <= 8000 else []):
            a = done[i]
            what = "command %d (%s)" % (i, " ".join(self.argv(c)[:3])[:40])
            killed = c["kill"] is not None and c["kill"] < count[i]
            log.append((a["status"] if not killed else "killed", a["code"] if not killed else 0, re.sub(r"\d+", "#", a["error"]) if not killed else ""))
            core.add(out.counts, {"%s %s" % (c["cmd"], "killed" if killed else "succeeds" if a["code"] == 0 else "fails"): 1})
            if killed:
                continue
            if (a["code"], a["out"]) not in answers[i]:
                ok = a["code"] == 0
                bad = bad or ("a command fails because of another one" if not ok and all(x[0] == 0 for x in answers[i]) else "a command answers what it would not answer alone",
                              "%s: %s %s" % (what, a["error"], a["out"][-200:].strip()))
            if a["code"] == 0:
                for n in outputs[i]:
                    finished[n].append(i)
        for n, w in finished.items():
            if w and not bad:
                ok = set().union(*[outputs[i][n] for i in writers[n]])
                if real.get(n) not in ok:
                    bad = ("a saved file is not there at the end", "%s, saved by the commands %s" % (n, w))
        out.simtime = sum(count)
        core.add(out.counts, {"operations": sum(count)})
        return self.end(out, log, bad)

    def end(self, out, log, bad):
        out.bad = bad
        out.digest = out.key = digest(log)
        return out

    def wait(self, i, at, done):
        w, a = self.par[i].arrive()
        if w is None:
            done[i] = a
        else:
            at[i] = w

    @staticmethod
    def judge(real, may, saved, pairs, where):
        for n, ok in may.items():
            c = real.get(n)
            if c not in ok:
                return ("a file is not one that a command saved", "%s: %s is %s" % (where, n, "gone" if c is None else "%d bytes, expected one of %s" % (
                    len(c), sorted("none" if x is None else "%d bytes" % len(x) for x in ok))))
        pub = real.get("public_key.pem")
        if pub in pairs and not any(p in saved or p == real.get("private_key.pem") for p in pairs[pub]):
            return ("a public key is on the disk whose private key was never completely saved", where)
        return None

    def shrink(self, c):
        n = len(c["cmds"])
        for k in range(n):
            if n > 2:
                m = lambda x: x - (x > k)
                yield dict(c, cmds=c["cmds"][:k] + c["cmds"][k + 1:], plan=[[m(a), b] for a, b in c["plan"] if a != k])
        for p in core.shrink_list(c["plan"]):
            yield dict(c, plan=p)
        if c["first"] and any(x["cmd"] == "genkeys" for x in c["cmds"]):
            yield dict(c, first=None)
        if c["first"] and c["first"]["data"] is not None:
            yield dict(c, first=dict(c["first"], data=None))
        for k, x in enumerate(c["cmds"]):
            if x["kill"] is not None:
                yield dict(c, cmds=c["cmds"][:k] + [dict(x, kill=None)] + c["cmds"][k + 1:])
        for k, (a, b) in enumerate(c["plan"]):
            for b2 in (1, b // 2):
                if 0 < b2 < b:
                    yield dict(c, plan=c["plan"][:k] + [[a, b2]] + c["plan"][k + 1:])
