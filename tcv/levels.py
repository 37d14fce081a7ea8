"""What each check claims (kept next to the machinery; used by bin/check and tools/mkmanifest.py)."""
import os
TRUSTED = [
    "tcv (this verifier): reading of Python and of the numpy/scipy operations listed in tcv/shim.py and tcv/arr.py",
    "z3 4.x for linear integer arithmetic over dimensions, indices and path conditions",
    "complex arithmetic treated as exact (no rounding, overflow, NaN)",
]
ASSUMED = ["floating point arithmetic is treated as exact complex arithmetic in the proofs",
           "input arrays do not alias each other",
           "logging and sanity-check output has no effect on results"]
BOUNDS = "finite chains: up to 5 sites, local dimension up to 3, bond dimension up to 6; uniform states: blocks up to 3, bond dimension up to 5"


def level(prop):
    from tools import claims
    return claims.LEVEL.get(prop, "other")


def note(prop):
    from tools import claims
    return claims.NOTE.get(prop, "")


def functions(here, prop, pr):
    """repository functions executed under contract, as recorded by the verifier"""
    s = set()
    for p in pr:
        if p["status"] == "proved":
            s.update(p.get("functions", []))
    return sorted(s)
