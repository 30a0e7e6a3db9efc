#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from analyzer/props.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "analyzer"))
from props import PROPS
NOTE = ("Sound over-approximation for all inputs of the analysed MIR: the check fails closed when an operation cannot be "
        "analysed. Trusts rustc's MIR, the extractor, the abstract domain and its models of core and rand functions.")
NOTES = {
    "C11": "Inductive representation invariant: every operation is analysed on all elements within the bound and shown to "
           "stay within it without overflow, lost bits or panics. Trusts rustc's MIR, extractor and abstract domain.",
    "C22": "Exact arithmetic on the constant values the compiler evaluates; primality by Miller-Rabin with 40 fixed bases.",
    "C27": "Source/MIR level: no branch, index, loop bound, division or remainder depends on a secret; code generation is "
           "outside (see C33).",
    "C33": "Every public operation of every field and curve, in the machine code the installed stable compiler produces for "
           "x86-64 (quick: the default release profile; thorough: also LTO and opt-levels 1, 2 and s). Trusts objdump's "
           "decoding and the instruction semantics in analyzer/machine.py.",
    "C34": "Relative to independent, uniform results of gen_range, gen and next_u32/64; the statistical distance is computed "
           "exactly and must not exceed 2^-64.",
    "C35": "The same abstract interpretation on the MIR of other targets, with the standard library checked from source (quick: "
           "powerpc, aarch64, x86-64-v4; thorough: also i686, s390x, armv7, mips, Apple aarch64); reports what differs from the "
           "host.",
    "C36": "The states in which a call panics are analysed: every buffer length below the packed size, every bit index (decided "
           "symbolically). Where an index computation cannot be followed symbolically, the indices up to two limbs past the "
           "end and the powers of two are tried one by one.",
    "C29": "Structural rules over the type-checked crate (visibility, unsafe, statics, ownership) plus effect analysis of "
           "by-reference operands.",
}
NA = []
checks = []
for pid, p in sorted(PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 analyzer/check.py %s" % pid,
                   "thorough_cmd": "python3 analyzer/check.py %s --deep" % pid,
                   "technique": p.technique, "level": "proof", "level_note": NOTES.get(pid, NOTE)})
m = {"version": 1, "setup_cmd": "python3 analyzer/extract.py", "checks": checks,
     "not_applicable": [{"property": a, "reason": b} for a, b in NA if a not in PROPS]}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
