"""What every public operation is supposed to do, as abstract transfer functions.

A specification is used twice: as the oracle an implementation's analysed body is compared with, and (for an
operation of a strictly lower level) as the summary of a call, so that e.g. the inversion's addition chain is
analysed with calls to `square` replaced by "residue squared".  Every summary used is recorded, and the check
also discharges the obligation that the summarised function meets its specification.
"""
from dom import Poly, ZERO, const
from ring import RPoly, rconst, rvar, rmul, rpow, from_poly, TooBig
from interp import (Agg, EnumV, FEV, FnV, IntV, PTV, Ref, SymArr, Top, UNINIT, UNIT, Diverge, Unsupported)

ARITH = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div"}
INTS = {8, 16, 32}


class Op:
    """A recognised operation: key, level, field/curve, argument kinds."""
    __slots__ = ("fn", "key", "level", "fi", "ci", "args", "ret", "form")

    def __init__(self, fn, key, level, fi, ci, args, ret, form):
        self.fn, self.key, self.level, self.fi, self.ci = fn, key, level, fi, ci
        self.args, self.ret, self.form = args, ret, form

    def __repr__(self):
        return "%s(%s)" % (self.key, self.form)


class Kind:
    """Kind of an argument: F field, M mask, P point, int, bool, slice, array, fmt, rng, other; by val/ref/mut."""
    __slots__ = ("k", "by", "fi", "ci", "bits", "signed", "tid", "n")

    def __init__(self, k, by, tid, fi=None, ci=None, bits=None, signed=None, n=None):
        self.k, self.by, self.tid, self.fi, self.ci, self.bits, self.signed, self.n = k, by, tid, fi, ci, bits, signed, n

    def __repr__(self):
        return {"val": "", "ref": "&", "mut": "&mut "}[self.by] + self.k


class Table:
    """Classification of the functions of a program."""

    def __init__(self, info):
        self.info, self.prog = info, info.prog
        self.cache = {}

    def kind(self, tid, by="val"):
        t = self.prog.types[tid]
        k = t["k"]
        if k in ("ref", "ptr") and by == "val":
            mut = t.get("mut")
            s = t.get("str", "")
            m = bool(mut) if mut is not None else s.startswith(("&mut", "*mut"))
            return self.kind(t["to"], "mut" if m else "ref")
        if tid in self.info.fields:
            return Kind("F", by, tid, fi=self.info.fields[tid])
        if tid in self.info.masks:
            return Kind("M", by, tid, fi=self.info.masks[tid])
        if tid in self.info.curves:
            ci = self.info.curves[tid]
            return Kind("P", by, tid, fi=ci.fi, ci=ci)
        if k == "int":
            return Kind("int", by, tid, bits=t["bits"], signed=t["signed"])
        if k == "bool":
            return Kind("bool", by, tid)
        if k == "slice" and self.u8(t["elem"]):
            return Kind("slice", by, tid)
        if k == "array" and self.u8(t["elem"]):
            return Kind("array", by, tid, n=t["len"])
        s = t.get("str", "")
        if "fmt::Formatter" in s:
            return Kind("fmt", by, tid)
        if "rand::" in s and k == "adt":
            return Kind("rng", by, tid)
        if k == "tuple" and not t["fields"]:
            return Kind("unit", by, tid)
        if "fmt::Error" in s and "Result" in s:
            return Kind("fmtres", by, tid)
        return Kind("other", by, tid)

    def u8(self, tid):
        t = self.prog.types[tid]
        return t["k"] == "int" and t["bits"] == 8 and not t["signed"]

    def op(self, fn):
        r = self.cache.get(fn.id, 0)
        if r == 0:
            r = self.classify(fn)
            self.cache[fn.id] = r
        return r

    def generic(self, fn):
        """An exported function outside the table that consumes or produces elements or points."""
        b = fn.body
        args = [self.kind(t) for t in b["locals"][1:b["argc"] + 1]]
        ret = self.kind(b["locals"][0])
        fi = next((a.fi for a in args + [ret] if a.fi), None)
        if fi is None or not (ret.k in "FP" or any(a.k in "FP" and a.by == "mut" for a in args)):
            return None
        return Op(fn, "generic", 9, fi, next((a.ci for a in args + [ret] if a.ci), None), args, ret,
                  fn.name.split("::")[-1])

    def self_field(self, fn):
        """Field whose implementation of a trait this is, for functions that mention no element."""
        if fn.trait_default and fn.targs and fn.targs[0][0] == "t":
            return self.info.fields.get(fn.targs[0][1])
        s = (fn.impl_self or fn.inherent or "").split("::")[-1]
        return next((f for f in self.info.fields.values() if f.name.split("::")[-1] == s), None)

    def classify(self, fn):
        if not fn.local or fn.body is None:
            return None
        b = fn.body
        args = [self.kind(t) for t in b["locals"][1:b["argc"] + 1]]
        ret = self.kind(b["locals"][0])
        sig = "".join(a.k[0] for a in args)
        ks = [a.k for a in args]
        form = "%s(%s)" % (fn.method or fn.name.split("::")[-1], ", ".join(repr(a) if a.k != "int" else
                                                                    "i%d" % a.bits for a in args))
        tr = (fn.trait or fn.trait_default or "").split("::")[-1]
        m = fn.method
        fi = next((a.fi for a in args + [ret] if a.fi), None)
        ci = next((a.ci for a in args + [ret] if a.ci), None)
        if fi is None:
            fi = self.self_field(fn)
        bys = [a.by for a in args]

        def mk(key, level):
            return Op(fn, key, level, fi, ci, args, ret, form)
        base = tr[:-6] if tr.endswith("Assign") else tr
        std = (fn.trait or fn.trait_default or "").replace("core::", "std::").startswith("std::ops::")
        if std and base in ARITH and len(args) == 2:
            assign = tr.endswith("Assign")
            key = ARITH[base]
            if ks == ["F", "F"] and args[0].fi is args[1].fi:
                if key == "div":
                    return mk("div", 3)
                return mk(key, 0 if assign and bys[1] == "ref" else 1)
            if ks == ["F", "int"] or ks == ["int", "F"]:
                if key == "div":
                    return mk("div", 3)
                return mk(key, 1)
            if ks == ["P", "P"] and key in ("add", "sub"):
                return mk("p" + key, 4 if assign and bys[1] == "ref" else 5)
            return None
        if std and tr == "Neg" and ks == ["F"]:
            return mk("neg", 0 if bys[0] == "val" else 1)
        if tr == "Clone" and m == "clone" and ks and ks[0] in "FMP":
            return mk("clone", 0)
        if tr in ("LowerHex", "UpperHex", "Debug", "Display") and m == "fmt" and ks[:1] == ["F"]:
            return mk("fmt:" + tr, 1)
        if tr == "Rand" and m == "rand" and ret.k == "F":
            return mk("rand", 1)
        if tr == "Normalize" and m == "normalize" and ks == ["F"]:
            return mk("normalize", 0)
        if tr == "NormalizeEq" and ks == ["F", "F"]:
            return mk(m, 1)
        if tr == "Pack" and fi is not None:
            lv = {"unpack": 0, "unpacked": 1, "pack": 1, "pack_normalized": 0, "nbytes": 0}.get(m)
            if lv is not None:
                return mk(m, lv)
        if tr == "PrimeFieldMask" and m in ("fill", "filled"):
            return mk("mask_" + m, 0)
        if tr == "PrimeField":
            lv = {"nbits": 0, "bit": 1, "bit_normalized": 0, "fill": 0, "filled": 0, "normalize_bitand": 1,
                  "normalize_self_bitand": 1, "normalized_bitand": 0, "normalize_bitor": 1,
                  "normalize_self_bitor": 1, "normalized_bitor": 0, "zero": 0, "one": 0, "m_one": 0, "modulus": 0,
                  "square": 0, "squared": 1, "invert": 2, "inverted": 2, "legendre": 2, "sqrt": 2,
                  "small_add_assign": 0, "small_add": 1, "small_sub_assign": 0, "small_sub": 1,
                  "small_mul_assign": 0, "small_mul": 1}.get(m)
            if lv is not None:
                return mk(m, lv)
        if tr == "Point" and ci is not None:
            lv = {"zero": 4, "init": 4, "double": 4, "doubled": 5, "triple": 4, "tripled": 5.5,
                  "scalar_mult_normalized": 6, "scalar_mult": 7}.get(m)
            if lv is not None:
                return mk("p" + m if not m.startswith("scalar") else m, lv)
        if tr == "EdwardsCurve" and m == "d_val":
            return mk("d_val", 0)
        if fn.inherent and fn.d.get("exported") and fn.name.split("::")[-1] == "packed" and ks == ["F"]:
            return mk("packed", 1)
        return None


class Specs:
    """Summary provider for one analysis; operations below `level` are summarised."""

    def __init__(self, table, level, only=None):
        self.table, self.info, self.prog, self.level, self.only = table, table.info, table.prog, level, only
        self.canon_memo = {}
        self.pts = {}
        self.serial = 0

    # ------------------------------------------------------------- abstract elements
    def limbs_of(self, I, v):
        fi = v.fi
        d = I.dom
        if v.mask is not None:
            p = -v.mask
            return tuple(I.mk(p, 64, True, -1, 0) for _ in range(fi.L))
        if v.canon and v.R.is_const():
            return tuple(I.iconst(x, b, s) for x, (_, b, s) in zip(fi.canon_limbs(v.R.const()), fi.leaves))
        if v.canon:
            ls = self.canon_memo.get((fi.name, v.R.key()))
            if ls is None:
                ls = self.fresh(I, fi, v.R, fi.cbox, "c", None)
                self.canon_memo[(fi.name, v.R.key())] = ls
                top = d.memo and None
            return ls
        return self.fresh(I, fi, v.R, fi.box, "l", v.supp)

    def fresh(self, I, fi, R, box, pre, supp):
        self.serial += 1
        ls = []
        ids = []
        for i, (lo, hi) in enumerate(box):
            p = I.dom.sym("%s%d_%d" % (pre, self.serial, i), lo, hi)
            ids.append(next(iter(p.d))[0])
            if supp is not None:
                q = I.dom.mul(supp, p)
                ls.append(I.mk(q, fi.leaves[i][1], fi.leaves[i][2], min(lo, 0), max(hi, 0)))
            else:
                ls.append(IntV(p, lo, hi, fi.leaves[i][1], fi.leaves[i][2]))
        g = R
        for i, a in enumerate(ids[1:], 1):
            g = g - rvar(a, fi.p).scale(1 << (fi.w * i))
        I.groups[ids[0]] = g
        return tuple(ls)

    def coords_of(self, I, v):
        self.serial += 1
        ci = v.ci
        uid = self.serial
        self.pts[uid] = (v.k, ci)
        fs = []
        for j in range(len(ci.order)):
            a = I.dom.atom("pt", (uid, j), 0, ci.fi.p - 1, name="%s%d" % (ci.order[j], uid), public=False)
            fs.append(FEV(ci.fi, rvar(a, ci.fi.p)))
        return Agg(tuple(fs))

    def pt(self, I, ci, v):
        """Point value -> multiple of the base points."""
        if type(v) is PTV:
            return v
        if type(v) is not Agg:
            raise Unsupported("point %r" % (v,))
        n = len(ci.order)
        if len(v.f) != n:
            raise Unsupported("point representation")
        d = I.dom
        per = []
        for j in range(n):
            f = I.lift(ci.fi, v.f[j])
            g = {}
            for m, c in f.R.d.items():
                pt = None
                rest = []
                for a, e in m:
                    at = d.at[a]
                    if at.kind == "pt":
                        if pt is not None or e != 1:
                            raise Unsupported("not a combination of points")
                        pt = at.data
                    elif a in d.boolset:
                        rest.append(a)
                    else:
                        raise Unsupported("coordinate is not a selection among points")
                if pt is not None and pt[1] != j:
                    raise Unsupported("coordinate %s holds coordinate %s of another point" %
                                      (ci.order[j], ci.order[pt[1]]))
                uid = pt[0] if pt is not None else 0
                cc = c if c <= ci.fi.p // 2 else c - ci.fi.p
                q = g.get(uid, ZERO) + Poly({tuple(sorted(rest)): cc})
                g[uid] = q
            per.append({u: q for u, q in g.items() if q.d})
        # constant part: the identity has coordinates (0, c, c, 0)
        ids = [p.pop(0, ZERO) for p in per]
        gid = ids[ci.order.index("y")]
        for j, nm in enumerate(ci.order):
            want = gid if nm in ("y", "z") else ZERO
            if ids[j] != want:
                raise Unsupported("coordinates are not those of the identity")
        if any(p != per[0] for p in per[1:]):
            raise Unsupported("the coordinates select different points")
        tot = gid
        k = ZERO
        for u, q in per[0].items():
            tot = tot + q
            k = k + d.mul(q, self.pts[u][0])
            if self.pts[u][1] is not ci:
                raise Unsupported("point of another curve")
        if tot != const(1):
            raise Unsupported("the selection of a point is not exclusive and exhaustive")
        if len(per[0]) == 1 and not gid.d:
            r = PTV(ci, k)
            r.coords = v
            return r
        r = PTV(ci, k)
        r.coords = v
        return r

    # ------------------------------------------------------------- access
    def getF(self, I, st, kind, a):
        v = I.read_at(st, a.cell, a.path) if type(a) is Ref else a
        if type(v) is Ref:
            v = I.read_at(st, v.cell, v.path)
        return I.lift(kind.fi, v)

    def setv(self, I, st, a, v):
        I.write_at(st, a.cell, a.path, v)

    def getP(self, I, st, kind, a):
        v = I.read_at(st, a.cell, a.path) if type(a) is Ref else a
        return self.pt(I, kind.ci, v)

    # ------------------------------------------------------------- summaries
    def summary(self, I, st, fn, args):
        if not fn.local:
            return NotImplemented
        op = self.table.op(fn)
        if op is None or op.level >= self.level:
            return NotImplemented
        if self.only is not None and op.key not in self.only:
            return NotImplemented
        h = SUMMARIES.get(op.key)
        if h is None:
            return NotImplemented
        r = h(self, I, st, op, args)
        if r is not NotImplemented:
            I.used.add(fn.id)
        return r


def finish(S, I, st, op, args, val):
    """Deliver a field result: into the first argument for in-place operations, else as the return value."""
    if op.ret.k == "F":
        return val
    S.setv(I, st, args[0], val)
    return UNIT


def bs(I):
    return I.dom.boolset


def s_arith(S, I, st, op, args):
    key = op.key
    if op.args[0].k == "int" or op.args[1].k == "int":
        iv = args[0] if op.args[0].k == "int" else args[1]
        if type(iv) is Ref:
            iv = I.read_at(st, iv.cell, iv.path)
        n = from_poly(iv.p, op.fi.p)
        if op.args[0].k == "int":
            x, y = n, S.getF(I, st, op.args[1], args[1]).R
        else:
            x, y = S.getF(I, st, op.args[0], args[0]).R, n
    else:
        x = S.getF(I, st, op.args[0], args[0]).R
        y = S.getF(I, st, op.args[1], args[1]).R
    if key == "add":
        r = x + y
    elif key == "sub":
        r = x - y
    elif key == "mul":
        r = rmul(x, y, bs(I))
    else:
        r = rmul(x, inv(I, y), bs(I))
    return finish(S, I, st, op, args, FEV(op.fi, r))


def inv(I, y):
    if len(y.d) > 1:
        a = I.dom.atom("inv", y.key(), 0, y.p - 1, public=False)
        return rvar(a, y.p)
    return rpow(y, y.p - 2, bs(I))


def s_neg(S, I, st, op, args):
    return finish(S, I, st, op, args, FEV(op.fi, -S.getF(I, st, op.args[0], args[0]).R))


def s_square(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0]).R
    return finish(S, I, st, op, args, FEV(op.fi, rmul(x, x, bs(I))))


def s_small(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0]).R
    n = from_poly(args[1].p, op.fi.p)
    k = op.key
    r = x + n if "add" in k else x - n if "sub" in k else rmul(x, n, bs(I))
    return finish(S, I, st, op, args, FEV(op.fi, r))


def s_invert(S, I, st, op, args):
    return finish(S, I, st, op, args, FEV(op.fi, inv(I, S.getF(I, st, op.args[0], args[0]).R)))


def s_legendre(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0]).R
    if len(x.d) > 1:
        return NotImplemented
    return FEV(op.fi, rpow(x, (op.fi.p - 1) // 2, bs(I)))


def s_normalize(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0])
    if x.canon:
        return UNIT
    S.setv(I, st, args[0], FEV(op.fi, x.R, canon=True))
    return UNIT


def ones(fi):
    return sum(1 << (fi.w * i) for i in range(fi.L))


def s_fill(S, I, st, op, args):
    b = args[-1]
    r = FEV(op.fi, from_poly(b.p, op.fi.p).scale(-ones(op.fi)), mask=b.p, supp=b.p)
    return finish(S, I, st, op, args, r)


def one(v):
    return v.supp if v.supp is not None else const(1)


def s_and(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0])
    y = S.getF(I, st, op.args[1], args[1])
    if x.mask is not None and y.mask is None:
        x, y = y, x
    if y.mask is None:
        return NotImplemented
    b = y.mask
    m = I.dom.mul(b, x.mask) if x.mask is not None else None
    r = FEV(op.fi, rmul(from_poly(b, op.fi.p), x.R, bs(I)), canon=x.canon and m is None,
            supp=I.dom.mul(b, one(x)), mask=m)
    S.setv(I, st, args[0], r)
    return UNIT


def s_or(S, I, st, op, args):
    x = S.getF(I, st, op.args[0], args[0])
    y = S.getF(I, st, op.args[1], args[1])
    sx, sy = one(x), one(y)
    if I.dom.mul(sx, sy).d:
        return NotImplemented
    m = x.mask + y.mask if x.mask is not None and y.mask is not None else None
    S.setv(I, st, args[0], FEV(op.fi, x.R + y.R, canon=x.canon and y.canon and m is None, supp=sx + sy, mask=m))
    return UNIT


def canonF(S, I, st, op, args, i=0):
    v = S.getF(I, st, op.args[i], args[i])
    return v if v.canon else None


def bit_atom(I, fi, v, idx):
    """Digit idx of the canonical value of a canonical element."""
    if v.R.is_const():
        return const(v.R.const() >> idx & 1)
    a = I.dom.atom("bit", (fi.name, v.R.key(), idx), 0, 1, isbool=True, name="bit%d" % idx, public=False)
    return I.dom.var(a)


def s_bit_normalized(S, I, st, op, args):
    v = canonF(S, I, st, op, args)
    idx = args[1]
    if v is None or not idx.known() or not 0 <= idx.lo < op.fi.N:
        return NotImplemented
    return I.boolv(bit_atom(I, op.fi, v, idx.lo))


def s_bit(S, I, st, op, args):
    idx = args[1]
    if not idx.known() or not 0 <= idx.lo < op.fi.N:
        return NotImplemented
    s_normalize(S, I, st, op, args)
    v = S.getF(I, st, op.args[0], args[0])
    return I.boolv(bit_atom(I, op.fi, v, idx.lo))


def byte_poly(I, fi, v, j):
    if v.R.is_const():
        return const(v.R.const() >> (8 * j) & 255)
    hi = 255 if 8 * (j + 1) <= fi.N else (1 << (fi.N - 8 * j)) - 1
    a = I.dom.atom("byte", (fi.name, v.R.key(), j), 0, hi, name="byte%d" % j, public=False)
    return I.dom.var(a)


def nbytes(fi):
    return (fi.N + 7) // 8


def write_bytes(S, I, st, op, r, v):
    n = nbytes(op.fi)
    if r.win is None or r.win[1].lo < n:
        return False
    for j in range(n):
        I.write_at(st, r.cell, r.path + (r.win[0] + j,), I.mk(byte_poly(I, op.fi, v, j), 8, False, 0, 255))
    return True


def s_pack_normalized(S, I, st, op, args):
    v = canonF(S, I, st, op, args)
    if v is None or not write_bytes(S, I, st, op, args[1], v):
        return NotImplemented
    return UNIT


def s_pack(S, I, st, op, args):
    if args[1].win is None or args[1].win[1].lo < nbytes(op.fi):
        return NotImplemented
    s_normalize(S, I, st, op, args)
    return s_pack_normalized(S, I, st, op, args)


def s_packed(S, I, st, op, args):
    s_normalize(S, I, st, op, args)
    v = canonF(S, I, st, op, args)
    n = nbytes(op.fi)
    return Agg(tuple(I.mk(byte_poly(I, op.fi, v, j), 8, False, 0, 255) for j in range(n)))


def s_const(val):
    def h(S, I, st, op, args):
        v = val(op.fi)
        return FEV(op.fi, rconst(v, op.fi.p), canon=v < op.fi.p)
    return h


# ------------------------------------------------------------- points
def p_finish(S, I, st, op, args, k):
    r = PTV(op.ci, k)
    if op.ret.k == "P":
        return r
    S.setv(I, st, args[0], r)
    return UNIT


def s_padd(S, I, st, op, args):
    x = S.getP(I, st, op.args[0], args[0])
    y = S.getP(I, st, op.args[1], args[1])
    return p_finish(S, I, st, op, args, x.k + y.k if op.key == "padd" else x.k - y.k)


def s_pscale(n):
    def h(S, I, st, op, args):
        x = S.getP(I, st, op.args[0], args[0])
        return p_finish(S, I, st, op, args, x.k.scale(n))
    return h


def s_pzero(S, I, st, op, args):
    return PTV(op.ci, ZERO)


def s_scalar(S, I, st, op, args):
    v = S.getF(I, st, op.args[1], args[1])
    if not v.canon:
        if op.key == "scalar_mult_normalized":
            return NotImplemented
        v = FEV(op.fi, v.R, canon=True)
        S.setv(I, st, args[1], v)
    x = S.getP(I, st, op.args[0], args[0])
    k = ZERO
    for i in range(op.ci.fi.N):
        k = k + bit_atom(I, op.ci.fi, v, i).scale(1 << i)
    return p_finish(S, I, st, op, args, I.dom.mul(x.k, k))


SUMMARIES = {
    "add": s_arith, "sub": s_arith, "mul": s_arith, "div": s_arith, "neg": s_neg, "square": s_square,
    "squared": s_square, "small_add_assign": s_small, "small_sub_assign": s_small, "small_mul_assign": s_small,
    "small_add": s_small, "small_sub": s_small, "small_mul": s_small, "invert": s_invert, "inverted": s_invert,
    "legendre": s_legendre, "normalize": s_normalize, "fill": s_fill, "filled": s_fill, "normalized_bitand": s_and,
    "normalized_bitor": s_or, "bit_normalized": s_bit_normalized, "bit": s_bit,
    "pack_normalized": s_pack_normalized, "pack": s_pack, "packed": s_packed,
    "padd": s_padd, "pdouble": s_pscale(2), "pdoubled": s_pscale(2), "ptriple": s_pscale(3), "ptripled": s_pscale(3),
    "pzero": s_pzero, "scalar_mult_normalized": s_scalar, "scalar_mult": s_scalar,
}
