"""Requests and messages of more than 2 and 4 GiB (csim/huge.c), in a process of their own."""
import glob, os, subprocess
from sim import cbuild


class Huge:
    def __init__(self, d):
        self.d, self.exe = d, {}

    def build(self, eth):
        if eth not in self.exe:
            d = os.path.join(self.d, "huge%d_%d" % (eth, os.getpid()))
            os.makedirs(d, exist_ok=True)
            base = ["gcc", "-w", "-O2", "-fwrapv", "-I", cbuild.SRC] + (["-DETHFALCON"] if eth else [])
            # the library is not linked symbolically: its calls of the block cipher go to the program
            cbuild.run(base + ["-shared", "-fPIC", "-DALGNAME=falcon512int", "-o", d + "/libh.so"] + sorted(glob.glob(cbuild.SRC + "/*.c")) + ["-lpthread", "-lm"])
            cbuild.run(base + ["-rdynamic", "-o", d + "/huge", cbuild.VERIF + "/csim/huge.c", d + "/libh.so"])
            self.exe[eth] = d + "/huge"
        return self.exe[eth]

    def run(self, eth, args, limit=200):
        """None if it holds, a text if not, and whether it could be tried."""
        try:
            r = subprocess.run([self.build(eth)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            return None, False
        if r.returncode < 0 and r.returncode != -9:
            return "the process ends with signal %d" % -r.returncode, True
        if r.returncode == 1:
            return r.stdout.strip(), True
        return None, r.returncode == 0


def length(rng):
    return (1 << rng.choice([31, 31, 32])) + rng.choice([0, 1, 15, 16, 17, 100, 4096, 65537]) + rng.randrange(2) * rng.randrange(100000)
