"""Rules over the type-checked items of the crate: constants, curve parameters, wiring, visibility, allocation.

Each rule returns a list of problems (kind, message, location, via) and a list of the instances it decided.
"""
import re

from fields import CURVES, FIELDS
from interp import hexs
from params import PUBLISHED


def is_prime(n):
    """Miller-Rabin, fixed bases (no composite below 2^81 passes the first 13 primes; 40 bases beyond)."""
    if n < 2:
        return False
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103,
             107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173]
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in small:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Rules:
    def __init__(self, prog, info, table):
        self.prog, self.info, self.table = prog, info, table
        self.problems = []
        self.instances = []

    def bad(self, kind, msg, loc):
        self.problems.append((kind, msg, loc, []))

    def ok(self, cond, msg, loc, what):
        self.instances.append(what)
        if not cond:
            self.bad("spec", msg, loc)
        return cond

    def items(self, fi):
        return {p.split("::")[-1]: (l, c) for p, (l, c) in fi.consts.items()}

    def loc(self, c):
        return self.prog.loc(c.get("span"))

    # ------------------------------------------------------------------ constants of the fields
    def constants(self):
        for short, (N, C) in FIELDS.items():
            fi = self.info.by_short.get(short)
            if fi is None:
                self.bad("analysis", "field 2^%d-%d is missing" % (N, C), "src/field")
                continue
            p = (1 << N) - C
            self.ok(is_prime(p), "2^%d-%d is not prime" % (N, C), "src/field", short + " modulus is prime")
            its = self.items(fi)
            want = {"ZERO": 0, "ONE": 1, "M_ONE": p - 1, "MODULUS": p}
            if p % 8 == 5:
                want["M_HALF"] = (p - 1) // 2
            for nm, v in want.items():
                if nm not in its:
                    self.bad("analysis", "%s: constant %s is missing" % (fi.name, nm), "src/field")
                    continue
                l, c = its[nm]
                self.ok(fi.value(l) == v, "%s denotes %s instead of %s" % (c["path"], hexs(fi.value(l)), hexs(v)),
                        self.loc(c), short + "." + nm + " value")
                self.ok(all(0 <= x < 1 << fi.w for x in l[:-1]) and 0 <= l[-1] < 1 << fi.top,
                        "%s is not stored in canonical form" % c["path"], self.loc(c), short + "." + nm + " form")
            for nm in sorted(its):
                if nm in want or its[nm][1]["exported"]:
                    self.documented(fi, nm, *its[nm])

    def documented(self, fi, nm, l, c):
        """Numbers in the documentation comment agree with the digits."""
        v = fi.value(l)
        t = " ".join(x.strip() for x in c.get("docs") or [])
        where = self.loc(c)
        m = re.search(r"0x([0-9a-fA-F]+)", t)
        if m:
            self.ok(int(m.group(1), 16) == v, "%s is documented as 0x%s but stores %s" % (c["path"], m.group(1), hexs(v)),
                    where, c["path"] + " documented hexadecimal")
        m = re.search(r"2\^(\d+)\s*([+-])\s*(\d+)", t)
        if m:
            w = (1 << int(m.group(1))) + int(m.group(2) + m.group(3))
            if nm.endswith("ORDER") or nm == "MODULUS":
                self.ok(w == v, "%s is documented as %s but stores %s" % (c["path"], m.group(0), hexs(v)), where,
                        c["path"] + " documented decimal")
        m = re.search(r"the (?:d )?value (-?)(\d+)(?:/(\d+))?(?![\d/^])", t, re.I)
        if m:
            w = int(m.group(2)) * pow(int(m.group(3) or 1), fi.p - 2, fi.p) * (-1 if m.group(1) else 1) % fi.p
            self.ok(w == v, "%s is documented as %s but stores %s" % (c["path"], m.group(0), hexs(v)), where,
                    c["path"] + " documented value")

    # ------------------------------------------------------------------ curve parameters
    def parameters(self):
        for cv, q in PUBLISHED.items():
            fi = self.info.by_short.get(q["field"])
            if fi is None:
                self.bad("analysis", "field of %s is missing" % cv, "src/field")
                continue
            p = fi.p
            its = self.items(fi)
            got = {}
            for part in ("D", "BASE_X", "BASE_Y", "ORDER"):
                if part == "D" and "d" not in q:
                    continue
                nm = q["prefix"] + "_" + part
                if nm not in its:
                    self.bad("analysis", "constant %s is missing" % nm, "src/field")
                    continue
                l, c = its[nm]
                got[part] = fi.value(l)
                self.ok(fi.is_canonical(l), "%s is not stored in canonical form" % c["path"], self.loc(c), nm + " form")
                self.documented(fi, nm, l, c)
                self.ok(got[part] == q[part.lower()] % p, "%s is %s; the published value for %s is %s" % (
                    c["path"], hexs(got[part]), cv, hexs(q[part.lower()] % p)), self.loc(c), nm + " value")
            if not all(k in got for k in ("BASE_X", "BASE_Y", "ORDER")) or ("d" in q and "D" not in got):
                continue
            x, y, n = got["BASE_X"], got["BASE_Y"], got["ORDER"]
            L = lambda part: self.loc(its[q["prefix"] + "_" + part][1])
            self.ok(is_prime(n), "%s_ORDER is not prime" % q["prefix"], L("ORDER"), cv + " order is prime")
            h = q["cofactor"]
            self.ok((h * n - p - 1) ** 2 <= 4 * p, "%s_ORDER times the cofactor %d is outside the Hasse interval" % (
                q["prefix"], h), L("ORDER"), cv + " order in the Hasse interval")
            if "d" in q:
                d = got["D"]
                on = (x * x + y * y - 1 - d * x * x * y * y) % p == 0
                self.ok(on, "the base point of %s does not satisfy its curve equation" % cv, L("BASE_X"),
                        cv + " base point on curve")
                self.ok(on and edwards_mul(n, (x, y), d, p) == (0, 1) and (x, y) != (0, 1), "%s_ORDER does not "
                        "annihilate the base point" % q["prefix"], L("ORDER"), cv + " order annihilates base point")
            else:
                A = q["a"]
                on = (y * y - x * x * x - A * x * x - x) % p == 0
                self.ok(on, "the base point of %s does not satisfy its curve equation" % cv, L("BASE_X"),
                        cv + " base point on curve")
                self.ok(on and montgomery_mul(n, (x, y), A, p) is None, "%s_ORDER does not annihilate the base point"
                        % q["prefix"], L("ORDER"), cv + " order annihilates base point")

    # ------------------------------------------------------------------ wiring of the Edwards curves
    def wiring(self):
        from oblig import Engine
        impls = [i for i in self.prog.items["impls"] if i["trait"].split("::")[-1] == "EdwardsCurve"]
        seen = {}
        for i in impls:
            seen[i["self"].split("::")[-1]] = i
        for cv, (short, d) in CURVES.items():
            ci = self.info.by_curve.get(cv)
            if ci is None or cv not in seen:
                self.bad("analysis", "no point type for curve %s: its scalar is not the field of that curve, or the "
                         "curve is missing" % cv, self.prog.loc(seen[cv]["span"]) if cv in seen else "src/curve")
                continue
            where = self.prog.loc(seen[cv]["span"])
            self.ok(ci.fi.short == short, "%s is wired to field %s instead of %s" % (cv, ci.fi.short, short), where,
                    cv + " field")
            p = ci.fi.p
            self.ok(pow(d % p, (p - 1) // 2, p) == p - 1, "the coefficient %d of %s is a square" % (d, cv), where,
                    cv + " coefficient is a non-square")
            its = self.items(ci.fi)
            nm = PUBLISHED[cv]["prefix"] + "_D"
            if nm in its:
                self.ok(ci.fi.value(its[nm][0]) == d % p, "%s is not %d" % (nm, d), self.loc(its[nm][1]),
                        cv + " published coefficient constant")
            else:
                self.bad("analysis", "constant %s is missing" % nm, where)

    # ------------------------------------------------------------------ opaque values
    def opaque(self):
        P, I = self.prog, self.info
        own = {f.name for f in I.fields.values()} | {P.types[t]["str"] for t in I.masks} | \
              {P.types[t]["str"].split("<")[0] for t in I.curves}
        n = 0
        for a in P.items["adts"]:
            if a["path"] in own:
                n += 1
                for f in a["fields"]:
                    self.instances.append("field %s of %s is not visible outside" % (f["name"], a["path"]))
                    if f["exported"] or f["public"] and a["exported"]:
                        self.bad("spec", "%s: field `%s` can be read and written by client code, which bypasses the "
                                 "carry invariant" % (a["path"], f["name"]), P.loc(a["span"]))
                self.instances.append("%s has no interior mutability" % a["path"])
                if a["freeze"] is False:
                    self.bad("spec", "%s contains interior mutability" % a["path"], P.loc(a["span"]))
        if n < 19:
            self.bad("analysis", "only %d of the 19 element, mask and point types were found" % n, "src")
        for tid in list(I.fields) + list(I.masks) + list(I.curves):
            self.instances.append("%s owns its data" % P.types[tid]["str"])
            why = self.foreign(tid, set())
            if why:
                self.bad("spec", "%s does not own its data: it contains %s" % (P.types[tid]["str"], why), "src")
        for s in P.items["statics"]:
            if s["mut"] or not s["freeze"]:
                self.bad("spec", "global mutable state: static %s of type %s" % (s["path"], s["ty"]), P.loc(s["span"]))
        self.instances.append("%d statics, none mutable" % len(P.items["statics"]))
        for u in P.items["unsafe"]:
            self.bad("spec", "unsafe code: %s" % u["kind"], P.loc(u["span"]))
        self.instances.append("%d bodies without unsafe blocks" % P.items["bodies"])
        if P.items["bodies"] < 500:
            self.bad("analysis", "only %d function bodies were searched for unsafe code" % P.items["bodies"], "src")
        # state hidden behind a call: thread-locals and the environment
        for f in P.fns:
            if f.local and f.body:
                for g in self.callees(f):
                    c = self.prog.fns[g].path.lstrip("<")
                    if c.startswith(HIDDEN):
                        self.bad("spec", "%s depends on hidden state: calls %s" % (f.path, c), P.fnloc(f))
        # references into the representation handed out
        for f in P.fns:
            if not (f.local and f.body and f.d.get("exported")):
                continue
            self.instances.append("%s hands out no reference into an element" % f.path)
            r = P.types[f.body["locals"][0]]
            if r["k"] in ("ref", "ptr") and self.mutable(r):
                a1 = f.body["locals"][1:2]
                k = self.table.kind(a1[0]) if a1 else None
                if k and k.k in "FPM" and self.table.kind(f.body["locals"][0]).k not in "FPM":
                    self.bad("spec", "%s hands out a mutable reference into the representation" % f.path, P.fnloc(f))
        # constants handed to clients satisfy the representation invariant
        for fi in I.fields.values():
            for pth, (l, c) in fi.consts.items():
                if c["exported"]:
                    self.ok(all(0 <= x < 1 << fi.w for x in l[:-1]) and 0 <= l[-1] < 1 << fi.top,
                            "exported constant %s has digits outside the canonical range" % pth, self.loc(c),
                            pth + " digits in range")

    def mutable(self, t):
        m = t.get("mut")
        return bool(m) if m is not None else t.get("str", "").startswith(("&mut", "*mut"))

    def foreign(self, tid, seen):
        """A component through which two copies could share state."""
        if tid in seen:
            return None
        seen.add(tid)
        t = self.prog.types[tid]
        k = t["k"]
        if k in ("int", "bool", "char", "never", "float"):
            return None
        if k == "array":
            return self.foreign(t["elem"], seen)
        if k == "tuple":
            return next((w for w in (self.foreign(f, seen) for f in t["fields"]) if w), None)
        if k == "adt" and t["adt"] in ("Struct", "Enum"):
            if t.get("str", "").startswith(("std::marker::PhantomData", "core::marker::PhantomData")):
                return None
            return next((w for v in t["variants"] for w in (self.foreign(f, seen) for f in v["fields"]) if w), None)
        return t.get("str", k)

    def callees(self, f):
        """Functions a body calls or takes as a value."""
        out = set()

        def op(o):
            if o[0] == "const":
                t = self.prog.types[o[1]["ty"]]
                if t["k"] in ("fndef", "closure") and t.get("fn") is not None:
                    out.add(t["fn"])
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "const" and isinstance(x[1], dict) and "ty" in x[1]:
                    op(x)
                else:
                    for y in x:
                        walk(y)
        for b in f.body["blocks"]:
            for st in b["s"]:
                walk(st)
            walk(b["t"])
        return out

    # ------------------------------------------------------------------ exported functions without a specification
    def surface(self):
        """Public functions beyond the known operations must keep the representation invariant too."""
        from oblig import Engine
        E = Engine(self.prog, self.info, self.table)
        for f in self.prog.fns:
            if not (f.local and f.body and f.d.get("exported")) or self.table.op(f):
                continue
            k = self.table.generic(f)
            if k is None:
                continue
            self.instances.append("%s keeps the carry invariant" % f.path)
            self.problems += E.generic(f, k)
        for fi in self.info.fields.values():
            for pth, (l, c) in fi.consts.items():
                if c["exported"]:
                    self.ok(all(lo <= x <= hi for x, (lo, hi) in zip(l, fi.box)), "exported constant %s is outside the "
                            "carry bound" % pth, self.loc(c), pth + " within the carry bound")

    # ------------------------------------------------------------------ recursion and allocation
    def heap(self):
        P = self.prog
        graph = {}
        for f in P.fns:
            if f.body:
                graph[f.id] = self.callees(f)
        ops = [f for f in P.fns if self.table.op(f)]
        for f in ops:
            op = self.table.op(f)
            if op.key.startswith("fmt:") or op.key == "rand":
                continue
            self.instances.append("%s: no allocation, no recursion" % f.path)
            seen = {f.id: None}
            work = [f.id]
            while work:
                x = work.pop()
                for g in graph.get(x, ()):
                    if g not in seen:
                        seen[g] = x
                        work.append(g)
                        h = P.fns[g]
                        if alloc_fn(h.path):
                            chain = []
                            y = g
                            while y is not None:
                                chain.append(P.fns[y].path)
                                y = seen[y]
                            self.bad("term", "%s allocates from the heap: %s" % (f.path, " <- ".join(chain)), P.fnloc(f))
                            work = []
                            break
        # strongly connected components among the functions the operations call
        for f in P.fns:
            if f.local and f.id in graph and self.reaches(graph, f.id):
                self.bad("term", "%s is recursive" % f.path, P.fnloc(f))

    def reaches(self, graph, a):
        seen, work = set(), list(graph.get(a, ()))
        while work:
            x = work.pop()
            if x == a:
                return True
            if x in seen or not self.prog.fns[x].local:
                continue
            seen.add(x)
            work.extend(graph.get(x, ()))
        return False


HIDDEN = ("std::thread", "std::env", "std::time", "std::fs", "std::net", "std::process", "std::sync::atomic",
          "core::sync::atomic", "std::cell", "core::cell", "std::io")


def alloc_fn(path):
    p = path.lstrip("<")
    return p.startswith("alloc::alloc::") or p.startswith("std::alloc::") or "exchange_malloc" in p or \
        p.startswith("std::boxed::box_new") or p.startswith("alloc::boxed::box_new") or "raw_vec::RawVec" in p


# ---------------------------------------------------------------------- exact curve arithmetic
def edwards_mul(n, P, d, p):
    """n P on x^2 + y^2 = 1 + d x^2 y^2 in projective coordinates."""
    def add(a, b):
        X1, Y1, Z1 = a
        X2, Y2, Z2 = b
        A = Z1 * Z2 % p
        B = A * A % p
        C = X1 * X2 % p
        D = Y1 * Y2 % p
        E = d * C * D % p
        F, G = (B - E) % p, (B + E) % p
        return (A * F * ((X1 + Y1) * (X2 + Y2) - C - D) % p, A * G * (D - C) % p, F * G % p)
    R, Q = (0, 1, 1), (P[0], P[1], 1)
    while n:
        if n & 1:
            R = add(R, Q)
        Q = add(Q, Q)
        n >>= 1
    if R[2] == 0:
        return None
    z = pow(R[2], p - 2, p)
    return (R[0] * z % p, R[1] * z % p)


def montgomery_mul(n, P, A, p):
    """n P on y^2 = x^3 + A x^2 + x, affine; None is the neutral element."""
    def add(a, b):
        if a is None:
            return b
        if b is None:
            return a
        (x1, y1), (x2, y2) = a, b
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            l = (3 * x1 * x1 + 2 * A * x1 + 1) * pow(2 * y1, p - 2, p) % p
        else:
            l = (y2 - y1) * pow(x2 - x1, p - 2, p) % p
        x3 = (l * l - A - x1 - x2) % p
        return (x3, (l * (x1 - x3) - y1) % p)
    R = None
    while n:
        if n & 1:
            R = add(R, P)
        P = add(P, P)
        n >>= 1
    return R
