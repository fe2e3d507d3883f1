#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
# property -> (technique, level note)
T = {
 "C01": ("seeded search over thread schedules of the real C library in a one-process simulator; each call compared with the call alone",
         "Schedules with up to 8 directed or many random preemptions, 2-5 threads. Assumes sequentially consistent memory and that preemption matters only at accesses to memory that is not private to a task."),
 "C02": ("seeded injection of randomness and entropy failures into call histories of the real C library; buffers and statuses checked after each call",
         "Every request position of a call, partial fills, persistent and single failures. Trusts the seam (randombytes, getentropy and its like replaced at link time)."),
 "C03": ("seeded search over schedules, boots and entropy failures; recorded history checked for linearizability against an AES-256-CTR-DRBG model",
         "1-4 threads, up to some 12 requests per run, steered counter states. Trusts AES of pycryptodome."),
 "C04": ("seeded interleavings of chunked writes, reads and refused calls on several stream contexts, against executable reference models",
         "Trusts hashlib, Keccak and AES of pycryptodome and the models in sim/streams.py."),
 "C05": ("seeded interleavings of chunked writes, reads and refused calls on several stream objects, against executable reference models",
         "Trusts hashlib, Keccak and AES of pycryptodome and the models in sim/streams.py."),
 "C06": ("simulation of signers, a faulty network and verifiers (real C library under AddressSanitizer); delivered messages checked against what was sent",
         "Network faults: corruption, truncation, extension, splicing, replay, reordering, misdelivery and re-encoding. Trusts that forgeries are infeasible."),
 "C07": ("simulation of signers, a faulty network and the real Python verifiers; verdicts checked against what was signed",
         "Parameters n=64 and 512. Trusts that forgeries are infeasible; the pure-Python library that the verifiers import is a stand-in written for this sandbox."),
 "C08": ("simulation of a network that delivers the same signed messages, intact and altered, to independent real verifiers (C and Python); verdicts compared",
         "Compares implementations with each other; agreement of two equal mistakes is not seen (C06 and C07 judge each alone)."),
 "C09": ("seeded search over goroutine schedules of the real Go binding, instrumented with a yield point at every statement, over a stubbed random source",
         "A goroutine is preempted between statements and around calls into C. Trusts the Go toolchain and sequential consistency."),
 "C10": ("seeded fault injection on the inputs and the random source of the real Go binding",
         "Trusts that forgeries are infeasible."),
 "C11": ("simulated boots, crashes and restarts with a simulated entropy source; keys and nonces of the whole history checked for repetition",
         "The operating system's entropy is a stub whose outputs never repeat between boots."),
 "C12": ("crash, power-loss and disk-fault injection in a simulated file system under the real command line; files checked after recovery",
         "Simulated file system with unsynchronised data lost or torn at any operation. Trusts its model of fsync and rename."),
 "C13": ("simulated histories of command-line signing over key files, data and repeated runs; salts and sampling seeds checked for reuse",
         "Trusts that the two observed values (salt, first random bytes) stand for the signing randomness."),
 "C14": ("seeded failures of the random source at any call of the real Python signing and key generation; later calls compared with undisturbed ones",
         "Small ring degrees in most runs, 512 in some."),
 "C15": ("seeded histories of successful and failing calls in one process of the real C library; each result compared with the same call alone in a pristine process",
         "Histories of 2-14 calls with drawn stack and buffer contents."),
 "C16": ("lock-step replay of the C library and the Python reference from the same random stream over histories of signings; outputs compared",
         "Compares implementations with each other."),
 "C17": ("simulated chain client with faults (errors, timeouts, truncated and negative answers) under the real command line; arguments and verdicts checked against a model",
         "The client is a stub that records its arguments. Its answers follow the documented format of cast."),
 "C18": ("network corruption of every input of the real C library under AddressSanitizer, with buffers of exactly the announced size",
         "AddressSanitizer reports accesses outside of allocations, and not every one inside of another one."),
 "C19": ("whole command-line processes under a scheduler that decides before every file operation which one goes on or is killed; files judged after every operation, answers against the same commands alone",
         "Two or three commands; operations of the file system are atomic."),
 "C34": ("simulated node: the real precompile, extracted and instrumented, under a goroutine scheduler, a network that alters call data, garbage collection and failing standard output; answers checked against a reference decoder and what was signed",
         "The packages abi and common of go-ethereum are stand-ins written after the originals. Trusts that forgeries are infeasible."),
}
NA = {
 "C30": "The property is a function of one input: no scheduling, time, I/O, crash or fault takes part. There is also no EVM or Solidity compiler here to run it.",
 "C31": "A pure arithmetic fact: no scheduling, time, I/O or fault takes part; a proof or exhaustive arithmetic would decide it, not a simulation.",
 "C32": "A statement about a probability distribution; simulation with faults cannot decide it, and no nondeterminism other than the random input takes part.",
 "C33": "A pure function of one input: no scheduling, time, I/O or fault takes part. What an unreliable network can make of encodings is part of C06, C07, C08 and C18.",
 "C35": "A pure function of one input, in code outside the Falcon library: no scheduling, time, I/O or fault takes part.",
 "C36": "Timing on real hardware; a simulator replaces the clock and sees no timing channel.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "%s check.py %s" % (PY, i), "thorough_cmd": "%s check.py %s --thorough" % (PY, i),
                       "technique": "deterministic simulation: " + T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Planned, but its check is not built yet.")})
m = {"version": 1, "setup_cmd": PY + " tools/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: all seams are made at build or import time by the harness (link-time wrapping, compiler instrumentation, patched module functions).", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "VERIF_TIER=thorough raises the time budget of a check. KNOWN_FINDINGS.txt lists repaired defects and findings. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
