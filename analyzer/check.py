#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current source of /repo.

Exit 0 when it holds, 1 with a VIOLATION line otherwise.  The evidence file evidence/<id>.json and the report
build/reports/<id>.txt are rewritten on every run.
"""
import argparse
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import extract
from fields import CURVES, FIELDS, Info, decode_ints
from interp import Unsupported, hexs
from mir import Program
from oblig import Engine
from props import PER_CURVE, PER_FIELD, PROPS, VALUE_FORMS
from specs import Table
import machine
import structural

VERIF = extract.VERIF
BUDGET = 700.0              # seconds after which undecided operations are reported as undecided
ROUNDS = 4

PROG = INFO = TABLE = None


def default_box(fi):
    t = fi.top
    return [(-1, (1 << fi.w) - 1)] * (fi.L - 1) + [(-(1 << (t + 1)), (1 << (t + 2)) - 1)]


def widen(lo, hi):
    """Smallest enclosing interval with power-of-two ends."""
    l = 0 if lo >= 0 else (-1 if lo == -1 else -(1 << (-lo - 1).bit_length()))
    h = (1 << hi.bit_length()) - 1 if hi >= 0 else -1
    return l, h


def field_ops(fi):
    out = []
    for f in PROG.fns:
        op = TABLE.op(f)
        if op is not None and op.fi is fi:
            out.append((f, op))
    return out


def produces(op):
    """Operations whose body is analysed on limbs and that leave an element behind."""
    return op.level <= 1 and (op.ret.k == "F" or any(a.k == "F" and a.by == "mut" for a in op.args))


def settle(fi, ops, deadline):
    """Find the representation invariant of a field: the default bound, or a wider inductive one."""
    fi.box = default_box(fi)
    log = []
    prods = [f for f, op in ops if produces(op)]
    E = engine(deadline)
    bad = [p for f in prods for p in E.run(f).problems if p[0] == "inv"]
    if not bad:
        return E, log
    first = E
    box = fi.box
    for rnd in range(ROUNDS):
        reach = E.reach.get(fi.name, {})
        nb = []
        for i, b in enumerate(box):
            lo, hi = reach.get(i, b)
            lo, hi = widen(min(lo, b[0]), max(hi, b[1]))
            nb.append((min(lo, b[0]), max(hi, b[1])))
        box = nb
        if any(max(-lo, hi) >= 1 << 62 for lo, hi in box):
            break
        fi.box = box
        E = engine(deadline)
        pr = [p for f in prods for p in E.run(f).problems]
        log.append("round %d: bounds %s" % (rnd + 1, ", ".join("[%s, %s]" % (hexs(a), hexs(b)) for a, b in box)))
        if not any(p[0] == "inv" for p in pr):
            if not pr:
                return E, log
            break
        if time.time() > deadline - 60:
            break
    fi.box = default_box(fi)
    return first, log


def engine(deadline):
    E = Engine(PROG, INFO, TABLE)
    E.deadline = deadline
    return E


def work(arg):
    """Analyse what a property needs of one field; returns plain data."""
    pid, short, deadline = arg
    pr = PROPS[pid]
    t0 = time.time()
    fi = INFO.by_short[short]
    out = {"field": short, "problems": [], "ops": [], "box": [], "log": [], "obl": 0, "cases": 0, "steps": 0,
           "counts": {}, "roots": 0, "used": 0}
    try:
        ops = field_ops(fi)
        roots = [(f, op) for f, op in ops if pr.select(op)]
        if not roots:
            return out
        E, out["log"] = settle(fi, ops, deadline)
        if pid == "C36":
            E = engine(deadline)
            E.misuse = True
        todo = [f for f, _ in roots]
        if pid == "C31":
            byid = {f.id: op for f, op in ops}
            for f, op in roots:
                r = E.run(f)
                mate = VALUE_FORMS[op.key]
                mates = [g for g, o in ops if o.key == mate and g is not f and o.fi is op.fi and o.ci is op.ci and
                         o.ret.k == "unit" and all(a.k in "FP" for a in o.args) == all(a.k in "FP" for a in op.args)]
                if mates and not any(byid[u].key == mate for u in r.used if u in byid):
                    todo += [g for g in mates if g not in todo]
        seen = set()
        while todo:
            f = todo.pop(0)
            if f.id in seen:
                continue
            seen.add(f.id)
            r = E.run(f)
            out["ops"].append((f.path + (" for " + short if "EdwardsExtended" in f.path else ""), r.op.form, r.cases,
                               r.obl, round(r.secs, 3)))
            out["obl"] += r.obl + r.cases
            out["cases"] += r.cases
            out["steps"] += r.steps
            for k, v in r.counts.items():
                out["counts"][k] = out["counts"].get(k, 0) + v
            for p in r.problems:
                if p[0] in pr.kinds:
                    out["problems"].append(p)
            if pr.closure:
                for u in sorted(r.used):
                    if u not in seen:
                        todo.append(PROG.fns[u])
        out["roots"] = len(roots)
        out["used"] = len(seen)
        out["box"] = [(hexs(a), hexs(b)) for a, b in fi.box]
    except Exception as e:
        out["problems"].append(("analysis", "internal error on field %s: %s: %s" % (short, type(e).__name__, e),
                                traceback.format_exc()[-600:], []))
    out["secs"] = round(time.time() - t0, 2)
    return out


def floors(pid, pr):
    """Operations the property is about that are no longer there."""
    out = []
    n = 0
    for short in FIELDS:
        fi = INFO.by_short.get(short)
        if fi is None:
            out.append(("analysis", "field type Mod_%s is missing" % short, "src/field", []))
            continue
        cnt = {}
        for f, op in field_ops(fi):
            if op.ci is None and op.key != "d_val":
                cnt[op.key] = cnt.get(op.key, 0) + 1
        for k in pr.floors:
            if k in PER_FIELD:
                n += 1
                if cnt.get(k, 0) < PER_FIELD[k]:
                    out.append(("analysis", "Mod_%s: %d implementations of `%s` are analysed, %d exist on the confirmed "
                                "tree" % (short, cnt.get(k, 0), k, PER_FIELD[k]), "src/field", []))
    for cv in CURVES:
        ci = INFO.by_curve.get(cv)
        if ci is None:
            if any(k in PER_CURVE for k in pr.floors):
                out.append(("analysis", "point type of curve %s is missing" % cv, "src/curve", []))
            continue
        cnt = {}
        for f, op in field_ops(ci.fi):
            if op.ci is ci or op.key == "d_val":
                cnt[op.key] = cnt.get(op.key, 0) + 1
        for k in pr.floors:
            if k in PER_CURVE and k not in PER_FIELD:
                n += 1
                if cnt.get(k, 0) < PER_CURVE[k]:
                    out.append(("analysis", "%s: %d implementations of `%s` are analysed, %d exist on the confirmed tree"
                                % (cv, cnt.get(k, 0), k, PER_CURVE[k]), "src/curve", []))
    return out, n


def platforms(name, host, problems, mark, inst):
    """Keep what is wrong on this platform and not on the host; compare the interfaces and the constants."""
    here = PROG.target
    sig = {"fns": sorted("%s %s" % (r["path"], r.get("for") or "") for r in PROG.roots if r.get("fn") is not None),
           "consts": {c["path"]: const_value(c) for c in PROG.items["consts"]},
           "problems": set((p[0], p[1]) for p in problems[mark:])}
    if host is None:
        if here["ptr"] != 64 or here["endian"] != "little":
            raise Unsupported("the host is not a 64-bit little-endian platform")
        del problems[mark:]
        return sig
    problems[mark:] = [(p[0], "%s (on %s)" % (p[1], here["name"])) + tuple(p[2:])
                       for p in problems[mark:] if (p[0], p[1]) not in host["problems"]]
    for f in sorted(set(host["fns"]) ^ set(sig["fns"])):
        problems.append(("interface", "%s exists %s on %s" % (f, "only" if f in sig["fns"] else "not", here["name"]),
                         "src", []))
    for c in sorted(set(host["consts"]) | set(sig["consts"])):
        if host["consts"].get(c) != sig["consts"].get(c):
            problems.append(("interface", "the constant %s has another value on %s" % (c, here["name"]), "src", []))
    inst.append("%s: %d-bit pointers, %s-endian, %d functions and %d constants compared with the host" % (
        here["name"], here["ptr"], here["endian"], len(sig["fns"]), len(sig["consts"])))
    return host


def const_value(c):
    v = c.get("value")
    if not v:
        return None
    try:
        return decode_ints(PROG, v["ty"], v["alloc"]["bytes"])
    except (Unsupported, KeyError, ValueError):
        return "?"


def known():
    """Recorded findings: key -> description (no entry is added at run time)."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("known: property="):
            head, _, desc = l[len("known: property="):].partition(" -- ")
            pid, _, key = head.partition(" key=")
            out[(pid, key)] = desc
    return out


def key_of(p):
    return "%s|%s" % (p[0], p[1].split(":")[0] if "[" in p[1] else p[1])


def main():
    global PROG, INFO, TABLE
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--json", help="use an existing dump (development only)")
    ap.add_argument("--deep", action="store_true", help="further build configurations or platforms")
    a = ap.parse_args()
    pid = a.property
    pr = PROPS[pid]
    if pr.structural == "machine":
        return machine_code(pid, pr, a)
    t0 = time.time()
    deadline = t0 + BUDGET
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = None
    problems, results, inst, nfl = [], [], [], 0
    compared = []
    try:
        try:
            if a.json is None:
                builds = extract.PROFILES
                if pr.structural == "platforms":
                    builds = extract.PROFILES[:1] + extract.PLATFORMS + (extract.MORE_PLATFORMS if a.deep else [])
                elif a.deep:
                    builds = extract.PROFILES + extract.PLATFORMS
                paths, scratch = extract.extract(a.repo, builds)
            else:
                paths = [("given", a.json)]
            progs = []
            for name, path in paths:
                P = Program(path)
                if not any(P.same(Q) for _, Q in progs):
                    progs.append((name, P))
                compared.append("%s: %s" % (name, "analysed" if progs[-1][0] == name else "same program"))
        finally:
            if scratch:
                shutil.rmtree(scratch, ignore_errors=True)
        host = None
        for name, PROG in progs:
            mark = len(problems)
            INFO = Info(PROG)
            TABLE = Table(INFO)
            fl, n = floors(pid, pr)
            nfl += n
            problems += fl
            shorts = [s for s in FIELDS if s in INFO.by_short]
            shorts.sort(key=lambda s: -INFO.by_short[s].L)
            now = []
            if shorts:
                with multiprocessing.get_context("fork").Pool(min(8, len(shorts))) as pool:
                    now = pool.map(work, [(pid, s, deadline) for s in shorts], chunksize=1)
            results += now
            for r in now:
                problems += [tuple(p) for p in r["problems"]]
            if pr.structural == "platforms":
                host = platforms(name, host, problems, mark, inst)
            elif pr.structural:
                for fi in INFO.fields.values():
                    fi.box = default_box(fi)
                for r in now:
                    if r["box"]:
                        INFO.by_short[r["field"]].box = [(int(x, 0), int(y, 0)) for x, y in r["box"]]
                R = structural.Rules(PROG, INFO, TABLE)
                getattr(R, pr.structural)()
                problems += R.problems
                inst = inst + R.instances
            if name not in ("dev", "given") and pr.structural != "platforms":
                problems[mark:] = [(p[0], "%s (%s build)" % (p[1], name)) + tuple(p[2:]) for p in problems[mark:]]
    except extract.ExtractError as e:
        problems.append(("analysis", str(e), "cargo check", []))
    except Unsupported as e:
        problems.append(("analysis", str(e), "src", []))
    kn = known()
    fresh, listed = [], []
    for p in dict((key_of(p) + p[2], p) for p in problems).values():
        (listed if (pid, key_of(p)) in kn else fresh).append(p)
    report(pid, pr, fresh, listed, results, inst)
    obl = sum(r["obl"] for r in results) + len(inst) + nfl
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": max(0, obl - len(fresh) - len(listed)),
            "checker_cmd": "python3 analyzer/check.py %s" % pid,
            "trusted_base": TRUSTED,
            "rule": pr.technique,
            "operations_selected": sum(r["roots"] for r in results),
            "operations_analysed": sum(r["used"] for r in results),
            "cases": sum(r["cases"] for r in results),
            "basic_blocks_interpreted": sum(r["steps"] for r in results),
            "structural_instances": len(inst),
            "builds": compared,
            "instance_floors_checked": nfl,
            "functions_extracted": len(PROG.fns) if PROG else 0,
            "by_field": [{"field": r["field"], "operations": r["used"], "obligations": r["obl"], "seconds": r.get("secs"),
                          "representation_bound": r["box"][:1] + r["box"][-1:], "rounds": r["log"]}
                         for r in results if r["ops"]],
            "samples": [o[0] + " " + o[1] for r in results for o in r["ops"][:3]][:30] + inst[:20],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d operations analysed, %d obligations, %d structural instances, %.1f s" % (
        pid, pr.title, ev["coverage"]["operations_analysed"], obl, len(inst), ev["wall_s"]))
    for p in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, key_of(p))]))
    for p in fresh[:12]:
        print("  %s %s: %s" % (p[0], p[2], p[1][:600]))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, rpath(pid)))
        return 1
    return 0


def machine_code(pid, pr, a):
    t0 = time.time()
    cov = {}
    try:
        problems, cov = machine.decide(a.repo, a.deep)
    except (machine.Undecided, OSError, subprocess.SubprocessError) as e:
        problems = [("analysis", str(e), "src", [])]
    groups = {}
    for p in problems:                                     # one report per place and kind
        groups.setdefault((p[0], p[2]), []).append(p)
    kn = known()
    fresh, listed = [], []
    for g in groups.values():
        p = g[0]
        if len(g) > 1:
            p = (p[0], "%s [and %d more entry points]" % (p[1], len(g) - 1), p[2], [q[1] for q in g[1:20]])
        (listed if (pid, "%s|%s" % (p[0], p[2])) in kn else fresh).append(p)
    report(pid, pr, fresh, listed, [], cov.get("samples", []))
    n = cov.get("jump_sites", 0) + cov.get("memory_accesses", 0)
    cov.update(obligations=n, discharged=max(0, n - len(problems)), rule=pr.technique,
               checker_cmd="python3 analyzer/check.py %s" % pid,
               trusted_base=["objdump (decoding)", "analyzer/machine.py (instruction semantics)",
                             "memcpy, memmove and memset do not branch on the bytes they move"])
    tier = os.environ.get("VERIF_TIER", "quick")
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof", "coverage": cov,
          "assumptions": ["the build analysed (installed stable compiler, release profile, x86-64) is the build in use",
                          "slices have the documented length; bit indices and lengths are public"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d entry points, %d instructions interpreted, %d jump sites, %.1f s" % (
        pid, pr.title, cov.get("entry_points", 0), cov.get("instructions_interpreted", 0), cov.get("jump_sites", 0),
        ev["wall_s"]))
    for p in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, "%s|%s" % (p[0], p[2]))]))
    for p in fresh[:12]:
        print("  %s %s: %s" % (p[0], p[2], p[1][:600]))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, rpath(pid)))
        return 1
    return 0


TRUSTED = ["rustc nightly front end and MIR construction", "driver/driver.rs (MIR to JSON)",
           "analyzer/*.py (abstract domain, transfer functions, specifications)",
           "models of core/rand functions in analyzer/models.py"]
ASSUME = ["the nightly compiler's MIR (opt-level 0, overflow checks on) has the meaning of the source",
          "functions of core, fmt and rand that are modelled behave as documented"]


def rpath(pid):
    return os.path.join(VERIF, "build", "reports", pid + ".txt")


def report(pid, pr, fresh, listed, results, inst):
    os.makedirs(os.path.dirname(rpath(pid)), exist_ok=True)
    with open(rpath(pid), "w") as f:
        f.write("property %s (%s)\nrule: %s\n\n" % (pid, pr.title, pr.technique))
        f.write("%d violations, %d known findings\n" % (len(fresh), len(listed)))
        for p in fresh + listed:
            f.write("\n%s at %s\n  %s\n" % (p[0], p[2], p[1]))
            for v in p[3] or []:
                f.write("    via %s\n" % (v,))
        f.write("\nanalysed:\n")
        for r in results:
            for l in r["log"]:
                f.write("  %s %s\n" % (r["field"], l))
            for o in r["ops"]:
                f.write("  %s %s  cases=%d obligations=%d %.2fs\n" % tuple(o))
        for i in inst:
            f.write("  %s\n" % i)


if __name__ == "__main__":
    sys.exit(main())
