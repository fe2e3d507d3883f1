"""The part that all checks share: seeds, workers, budget, minimising, replay, evidence.

A check is a module in checks/ with
  ID, TITLE...     see checks/c01.py
  build(dir)       -> ctx (picklable): builds what the check needs from /repo's working tree
  World(ctx)       one per worker process: .case(rng) draws a case (JSON), .run(case) executes it
                   and returns an Outcome, .shrink(case) yields smaller cases, .close()
A case is executed by a pure function of the case and the tree: it is the replay file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Outcome:
    """What a run showed. bad: None or text (first line: class of the violation, stable under shrinking)."""

    def __init__(self, bad=None, digest="", key=None, faults=None, counts=None, simtime=0.0, nontrivial=True, known=None):
        self.bad = bad              # (class, text) or None
        self.digest = digest        # of everything observable: equal for equal cases
        self.key = key              # measure of distinctness
        self.faults = faults or {}  # fault kind -> how often it fired
        self.counts = counts or {}  # probes: name -> how often
        self.nontrivial = nontrivial
        self.simtime = simtime
        self.known = known or []    # known findings that were met: [(id, text)]


def digest(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:24]


def rng_for(seed, check, i):
    """One integer decides everything: the PRNG of run i."""
    return random.Random(int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, check, i)).encode()).digest()[:16], "big"))


def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def worker(mod, ctx, seed, wid, nw, deadline, limit, q, stop, note):
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        w = mod.World(ctx)
        i = wid
        st = {"runs": 0, "keys": set(), "nontrivial": set(), "faults": {}, "counts": {}, "samples": [], "known": {}, "simtime": 0.0}
        bad = None
        guard = getattr(mod, "ISOLATE", 0)
        while time.time() < deadline and (limit is None or i < limit) and not stop.is_set():
            case = w.case(rng_for(seed, mod.ID, i))
            if guard:
                # the code under test runs in this process: if it dies or hangs, main() finds the case here
                with open("%s.%d" % (note, wid), "w") as f:
                    json.dump([i, case], f)
                signal.alarm(guard)
            o = w.run(case)
            if guard:
                signal.alarm(0)
            st["runs"] += 1
            k = o.key if o.key is not None else o.digest
            st["keys"].add(k)
            if o.nontrivial:
                st["nontrivial"].add(k)
            add(st["faults"], o.faults)
            add(st["counts"], o.counts)
            st["simtime"] += o.simtime
            for kid, text in o.known:
                st["known"].setdefault(kid, text)
            if len(st["samples"]) < 2 and i < 4 * nw:
                st["samples"].append(case)
            if o.bad:
                bad = (i, case, o.bad)
                stop.set()
                break
            i += nw
        w.close()
        q.put(("ok", wid, st, bad))
    except BaseException:
        q.put(("error", wid, traceback.format_exc(), None))


def minimise(w, case, cls, seconds):
    """Greedy: take the first smaller case that shows the same class of violation, until none does."""
    end = time.time() + seconds
    tried = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in w.shrink(case):
            if time.time() > end:
                break
            tried += 1
            try:
                o = w.run(c)
            except Exception:
                continue
            if o.bad and o.bad[0] == cls:
                case, progress = c, True
                break
    return case, tried


def death(mod, code):
    """What the exit code of a process that ran a case says: None if nothing."""
    if code is None or code >= 0 or not getattr(mod, "ISOLATE", 0) or code in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
        return None
    if code == -signal.SIGALRM:
        return ("hang", "the code under test did not return within %d s" % mod.ISOLATE)
    return ("crash", "the code under test killed the process with %s" % signal.Signals(-code).name)


def forked(mod, ctx, case, q):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    w = mod.World(ctx)
    signal.alarm(getattr(mod, "ISOLATE", 0))
    o = w.run(case)
    signal.alarm(0)
    w.close()
    q.put(o)


class Apart:
    """Like mod.World, but every run happens in a process of its own."""

    def __init__(self, mod, ctx):
        self.mod, self.ctx, self.w = mod, ctx, mod.World(ctx)

    def shrink(self, case):
        return self.w.shrink(case)

    def run(self, case):
        q = mp.Queue()
        p = mp.Process(target=forked, args=(self.mod, self.ctx, case, q))
        p.start()
        o = None
        while o is None:
            try:
                o = q.get(timeout=.05)
            except Exception:
                if not p.is_alive() and q.empty():
                    break
        p.join()
        if o is None:
            bad = death(self.mod, p.exitcode)
            if not bad:
                raise RuntimeError("the run gave no answer (exit %s)" % p.exitcode)
            o = Outcome(bad, bad[0])
        return o

    def close(self):
        self.w.close()


def world(mod, ctx):
    return Apart(mod, ctx) if getattr(mod, "ISOLATE", 0) else mod.World(ctx)


def shrink_list(xs, keep=0):
    """Candidates: without a half, a quarter, ..., one element."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            if n - len(xs[i:i + size]) >= keep:
                yield xs[:i] + xs[i + size:]
        size //= 2


def short(x, n=400):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def replay(mod, path):
    """Execute a replay file. Returns the Outcome."""
    with open(path) as f:
        rec = json.load(f)
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        ctx = mod.build(d)
        w = world(mod, ctx)
        try:
            return w.run(rec["case"])
        finally:
            w.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(mod, argv):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv[:1] == ["--replay"]:
        o = replay(mod, argv[1])
        if o.bad:
            print("VIOLATION property=%s replay=%s" % (mod.ID, argv[1]))
            print(o.bad[0] + ": " + o.bad[1])
            return 1
        print("no violation; digest %s" % o.digest)
        return 0
    if argv[:1] == ["--digests"]:
        # for the determinism test: the digests of the first N runs
        d = tempfile.mkdtemp(prefix="verif-")
        try:
            w = mod.World(mod.build(d))
            start, n, step = int(argv[1]), int(argv[2]), int(argv[3]) if len(argv) > 3 else 1
            for i in range(start, n, step):
                c = w.case(rng_for(seed, mod.ID, i))
                o = w.run(c)
                print(i, digest(json.dumps(c, sort_keys=True)), o.digest, o.bad)
            w.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", mod.QUICK if tier == "quick" else mod.THOROUGH))
    limit = int(os.environ["VERIF_RUNS"]) if "VERIF_RUNS" in os.environ else None
    print("property %s seed %d tier %s budget %gs" % (mod.ID, seed, tier, budget), flush=True)
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        try:
            ctx = mod.build(d)
        except Exception:
            print("ERROR: the build failed")
            traceback.print_exc(file=sys.stdout)
            return 2
        tb = time.time() - t0
        nw = WORKERS
        q = mp.Queue()
        stop = mp.Event()
        deadline = time.time() + budget
        ps = [mp.Process(target=worker, args=(mod, ctx, seed, k, nw, deadline, limit, q, stop, d + "/case")) for k in range(nw)]
        for p in ps:
            p.start()
        res = []
        hard = deadline + getattr(mod, "GRACE", 240)
        while len(res) < nw:
            try:
                res.append(q.get(timeout=1))
            except Exception:
                if any(death(mod, p.exitcode) for p in ps):
                    stop.set()
                if time.time() > hard or all(not p.is_alive() for p in ps) and q.empty():
                    break
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.terminate()
        wall_search = time.time() - t0 - tb
        errors = [r for r in res if r[0] == "error"]
        dead = []
        have = {r[1] for r in res}
        for k, p in enumerate(ps):
            bad = death(mod, p.exitcode)
            if k not in have and bad and os.path.exists(d + "/case.%d" % k):
                with open(d + "/case.%d" % k) as f:
                    i, case = json.load(f)
                dead.append((i, case, bad))
        bads = sorted(dead + [r[3] for r in res if r[0] == "ok" and r[3]], key=lambda b: b[0])
        if not bads and (errors or len(res) < nw):
            for e in errors:
                print("ERROR in worker %d\n%s" % (e[1], e[2]))
            if len(res) < nw:
                print("ERROR: %d of %d workers gave no answer" % (nw - len(res), nw))
            return 2
        tot = {"runs": 0, "keys": set(), "nontrivial": set(), "faults": {}, "counts": {}, "samples": [], "known": {}, "simtime": 0.0}
        for r in res:
            if r[0] != "ok":
                continue
            s = r[2]
            tot["runs"] += s["runs"]
            tot["simtime"] += s["simtime"]
            tot["keys"] |= s["keys"]
            tot["nontrivial"] |= s["nontrivial"]
            add(tot["faults"], s["faults"])
            add(tot["counts"], s["counts"])
            tot["samples"] += s["samples"]
            tot["known"].update(s["known"])
        rc = 0
        if bads:
            i, case, bad = bads[0]
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = VERIF + "/replays/%s-%d-%d.json" % (mod.ID, seed, i)
            print("run %d (seed %d) violates %s: %s\n%s" % (i, seed, mod.ID, bad[0], bad[1]), flush=True)
            small, tried = case, 0
            try:
                w = world(mod, ctx)
                if bad[0] != "hang":
                    small, tried = minimise(w, case, bad[0], getattr(mod, "MINIMISE", 60))
                    o = w.run(small)
                    if o.bad:
                        bad = o.bad
                w.close()
            except Exception:
                traceback.print_exc(file=sys.stdout)
                small = case
            rec = {"property": mod.ID, "seed": seed, "run": i, "class": bad[0], "what": bad[1], "case": small, "minimised_after": tried}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            # must fail the same way in a fresh process
            r = subprocess.run([sys.executable, VERIF + "/check.py", mod.ID, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1:
                print("the minimised case did not fail again in a fresh process: keeping the case as found\n" + r.stdout[-1500:])
                rec["case"] = case
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
            print("minimal case after %d attempts: %s" % (tried, json.dumps(short(small, 1500))))
            print("%s: %s" % (bad[0], bad[1]))
            print("VIOLATION property=%s replay=%s" % (mod.ID, path), flush=True)
            rc = 1
        for kid in sorted(tot["known"]):
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, tot["known"][kid]))
        # every listed finding is looked for on every run
        wall = time.time() - t0
        cov = {
            "evaluations": tot["runs"], "distinct_nontrivial": len(tot["nontrivial"]), "rule": mod.RULE,
            "samples": [short(x) for x in tot["samples"][:3]],
            "seeds": tot["runs"], "runs_per_hour": round(tot["runs"] * 3600 / max(wall_search, 1e-6)),
            "distinct_runs": len(tot["keys"]), "distinctness_measure": mod.MEASURE,
            "faults_fired": tot["faults"], "probes": tot["counts"],
            "simulated_time": {"unit": mod.TIME_UNIT, "covered": round(tot["simtime"])},
            "real_components": mod.REAL, "stubbed_components": mod.STUB,
            "workers": nw, "build_s": round(tb, 1), "search_s": round(wall_search, 1),
            "known_findings_met": sorted(tot["known"]),
        }
        ev = {"property": mod.ID, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
              "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(bads)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % mod.ID, "w") as f:
            json.dump(ev, f, indent=1)
        print("%d runs, %d distinct, faults %s, probes %s, %.1f s" % (tot["runs"], len(tot["keys"]), tot["faults"], tot["counts"], wall))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)
