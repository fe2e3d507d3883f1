#!/usr/bin/env python3
"""Nothing is installed: looks whether the tools that the checks need are there."""
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("gcc",) if not shutil.which(t)]
for m in ("Crypto.Cipher.AES", "numpy"):
    try:
        __import__(m)
    except ImportError:
        missing.append(m)
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ready")
