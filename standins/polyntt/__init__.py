"""Stand-in for the external `polyntt` package (ZKNoxHQ/NTT), which pythonref
imports and which cannot be installed here (no network).

Only the API that /repo/pythonref uses, computed with numpy over Z_q[X]/(X^n+1).
It is a stub in the sense of DESIGN.md: nothing in /repo is replaced by it.
"""
