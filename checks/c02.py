"""C02: no key or signature comes out when the randomness source fails."""
import json
from sim import core, cbuild
from sim.csim import Engine, op
from sim.core import Outcome, digest
from checks.c01 import load_keys, corrupt

ID = "C02"
QUICK, THOROUGH = 40, 900
RULE = ("A run is one process that makes 1-8 library calls in a row (key generation and signing in all encodings and both builds, and "
        "openings of what was signed), with failures of the randomness source at drawn positions: the k-th request of a call, once or "
        "for the rest of the call, after filling 0 to all bytes; or the operating system's entropy fails under the library's own source. "
        "Non-trivial: a failure was reported to a call.")
MEASURE = "hash of the calls, the failure positions and all results"
TIME_UNIT = "library calls"
REAL = ["all C sources of falcon/nistfalcon/src (in part of the runs with their own randomness source katrng.c)"]
STUB = ["randombytes (a stream per call with failures)", "operating-system entropy (a stream with failures)"]
ASSUMPTIONS = ["a failing source returns a nonzero status (-4, -1 and 1 are drawn)", "buffers are compared with a random prefill"]
N_STATUS = "a call succeeds although the randomness source failed"


def build(d):
    return {"exe": cbuild.csim(d, "sched", False), "exe_eth": cbuild.csim(d, "sched", True)}


class World:
    def __init__(self, ctx):
        self.eng = {False: Engine(ctx["exe"]), True: Engine(ctx["exe_eth"])}
        self.keys = load_keys()
        self.base = {}

    def close(self):
        for e in self.eng.values():
            e.close()

    def case(self, rng):
        eth = rng.random() < .4
        real = rng.random() < .25
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            v = rng.choice("nze")
            k = rng.randrange(len(self.keys))
            key = self.keys[k]
            fill, rs = rng.getrandbits(30) + 1, rng.getrandbits(60)
            m = rng.randbytes(rng.choice([0, 1, 33, 100, 136, rng.randrange(4100)]))
            fail = None
            if not real and rng.random() < .65:
                fail = "%d:%d:%d" % (rng.choice([0, 0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 39, 40, 47, 48, rng.randrange(60)]), rng.random() < .4)
            if rng.random() < .3:
                o = op("kp_" + ("n" if v == "n" else "z"), rs=rs, fill=fill, fail=fail)
            else:
                o = op("sg_" + v, rs=rs, fill=fill, fail=fail, a=m, b=key["sk"], alias=rng.choice([0, 0, 0, 1, 2]))
            if real:
                o["rs"] = "R"
            ops.append(o)
        return {"eth": eth, "ops": ops, "os": rng.getrandbits(60),
                "osuntil": rng.choice([1, 1, 2, 3, 10 ** 6]) if real else 0, "reuse": rng.random() < .3}

    def alone(self, eth, o):
        o = dict(o, fail=None)
        k = (eth, json.dumps(o, sort_keys=True))
        if k not in self.base:
            if len(self.base) > 500:
                self.base.clear()
            R = self.eng[eth].run([[o]])
            self.base[k] = R.res.get((0, 0)), R.bad
        return self.base[k]

    def run(self, c):
        eng = self.eng[c["eth"]]
        R = eng.run([c["ops"]], os=c["os"], osuntil=c["osuntil"], limit=60 * 10 ** 6, reuse=c["reuse"])
        out = Outcome(simtime=len(c["ops"]), nontrivial=False)
        out.digest = digest(sorted((k, r.observable()) for k, r in R.res.items()), R.bad)
        osf = 0
        for j, o in enumerate(c["ops"]):
            r = R.res.get((0, j))
            real = o["rs"] == "R"
            if r is None:
                base, bad = self.alone(c["eth"], dict(o, rs=1) if real else o)
                if base is not None:
                    out.bad = ("a call does not return", "call %d (%s): %s" % (j, o["kind"], R.bad))
                return out
            fired = False
            if real:
                if r.osc == 0:
                    # this library takes its entropy where the simulation does not see it
                    out.counts["calls without a visible source"] = out.counts.get("calls without a visible source", 0) + 1
                    continue
                # no entropy came from the system so far, or a failure made this call give up
                fired = r.osc == r.osf or (r.osf > osf and r.ret != 0)
                osf = r.osf
            elif o["fail"]:
                k = int(o["fail"].split(":")[0])
                fired = r.nrand > k
            if fired:
                out.nontrivial = True
                kind = "entropy of the system fails" if real else "randombytes fails at request %s%s" % (o["fail"].split(":")[0], " and after" if o["fail"].endswith("1") else "")
                out.faults[kind] = out.faults.get(kind, 0) + 1
                if r.ret == 0:
                    out.bad = (N_STATUS, "call %d (%s), failure %s: status 0" % (j, o["kind"], o["fail"]))
                    return out
                if not (r.o1same and r.o2same and r.lensame and r.guard) or r.inchanged:
                    out.bad = ("a failed call changes the caller's buffers", "call %d (%s), failure %s: outputs unchanged %d %d, length unchanged %d"
                               % (j, o["kind"], o["fail"], r.o1same, r.o2same, r.lensame))
                    return out
                continue
            out.counts["calls with a working source"] = out.counts.get("calls with a working source", 0) + 1
            if real:
                base, _ = self.alone(c["eth"], dict(o, rs=1))
                if base is not None and r.ret != base.ret:
                    out.bad = ("a call after the failures does not work as usual", "call %d (%s): status %d, usually %d" % (j, o["kind"], r.ret, base.ret))
                    return out
            else:
                base, _ = self.alone(c["eth"], o)
                if base is not None and base.observable() != r.observable():
                    out.bad = ("a call after the failures does not work as usual", "call %d (%s): status %d, usually %d" % (j, o["kind"], r.ret, base.ret))
                    return out
        return out

    def shrink(self, c):
        for ops in core.shrink_list(c["ops"], 1):
            yield dict(c, ops=ops)
        for j, o in enumerate(c["ops"]):
            for s in ([dict(o, a="")] if o["a"] else []) + ([dict(o, alias=0)] if o["alias"] else []) + ([dict(o, fail=None)] if o["fail"] else []):
                yield dict(c, ops=c["ops"][:j] + [s] + c["ops"][j + 1:])
