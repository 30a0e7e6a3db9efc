"""For every recognised operation, the abstract inputs to analyse it on and the comparison with its specification."""
from dom import Poly, ZERO, const
from ring import RPoly, rconst, rvar, rmul, rpow, from_poly
from interp import Agg, EnumV, FEV, IntV, PTV, Ref, SymArr, UNIT, Unsupported, ty_range, hexs
from models import Rng, Sink
from specs import SUMMARIES, bit_atom, byte_poly, nbytes, ones
from oblig import Case
import group


# ------------------------------------------------------------------ comparison with a summary
def against(C, ret, st0=None):
    """Run the operation's specification on the initial state and compare every output."""
    op, I = C.op, C.I
    st2 = (st0 or C.st0).copy()
    want_ret = SUMMARIES[op.key](C.S, I, st2, op, list(C.args))
    if want_ret is NotImplemented:
        raise Unsupported("specification of %s" % op.key)
    for i, (k, a) in enumerate(zip(op.args, C.args)):
        if k.by == "mut" and type(a) is Ref and a.win is None:
            compare(C, "argument %d" % (i + 1), k, C.val(a), I.read_at(st2, a.cell, a.path))
    if op.ret.k != "unit":
        compare(C, "return value", op.ret, ret, want_ret)


def compare(C, what, k, got, want):
    I = C.I
    if k.k in ("F", "M"):
        if k.k == "F":
            w = I.lift(k.fi, want)
        else:
            w = want
        if getattr(w, "mask", None) is not None:
            mask_is(C, what, k.fi, got, w.mask)
            return
        C.residue(k.fi, got, w.R, what)
        if w.canon:
            C.canonical(k.fi, got, what)
    elif k.k == "P":
        g, w = C.S.pt(I, k.ci, got), C.S.pt(I, k.ci, want)
        C.ok(g.k == w.k, "spec", "%s is %s times the base point, specified %s" %
             (what, I.dom.show(g.k, 4), I.dom.show(w.k, 4)))
    elif k.k == "bool" or k.k == "int":
        C.ok(type(got) is IntV and got.p == want.p, "spec", "%s is %s, specified %s" %
             (what, I.dom.show(got.p, 4) if type(got) is IntV else got, I.dom.show(want.p, 4)))
    elif k.k == "rng":
        pass
    else:
        raise Unsupported("comparison of an output of kind " + k.k)


def mask_is(C, what, fi, got, b):
    if type(got) is FEV:
        C.ok(got.mask is not None and got.mask == b, "spec", "%s is not the mask of the bit" % what)
        return
    bad = [i for i, x in enumerate(leaves(got)) if type(x) is not IntV or not (x.p + b == ZERO)]
    C.ok(not bad and len(leaves(got)) == fi.L, "spec", "%s: limbs %s are not all-ones for true and zero for false"
         % (what, bad))


def leaves(v):
    if type(v) is IntV:
        return [v]
    if type(v) is Agg:
        return [y for x in v.f for y in leaves(x)]
    return [v]


def bool_or_elem(C, i, k):
    return None


def std_cases(E, op, mode, **kw):
    return [Case("any input", lambda C: C.std(mode), against, **kw)]


# ------------------------------------------------------------------ individual operations
def c_default(E, op):
    return std_cases(E, op, "limb" if op.level == 0 else "elem")


def c_self_eq(E, op):
    def build(C):
        C.a, C.b = C.elem("a"), C.elem("b", canon=(op.args[1].by == "ref"))
        return C.std("elem", {0: C.a, 1: C.b})

    def check(C, ret):
        I, fi = C.I, C.fi
        d = I.dom
        if not C.ok(type(ret) is IntV, "spec", "result is not a boolean"):
            return

        def canon(R):
            l = C.S.canon_memo.get((fi.name, R.key()))
            return l
        la, lb = canon(C.a.R), canon(C.b.R)
        wants = []
        if la and lb:
            p = const(1)
            for x, y in zip(la, lb):
                p = d.mul(p, d.eq0(x.p - y.p, x.lo - y.hi, x.hi - y.lo))
            wants.append(p)
        for D in (C.a.R - C.b.R, C.b.R - C.a.R):
            l = canon(D)
            if l:
                p = const(1)
                for x in l:
                    p = d.mul(p, d.eq0(x.p))
                wants.append(p)
        p = const(1)
        for j in range(nbytes(fi)):                 # or of the packed form, byte by byte
            x, y = (byte_poly(I, fi, FEV(fi, v.R, canon=True), j) for v in (C.a, C.b))
            p = d.mul(p, d.eq0(x - y))
        wants.append(p)
        C.ok(any(ret.p == w for w in wants), "spec",
             "result is not the conjunction of the comparisons of all %d canonical limbs" % fi.L)
        for i, v in ((0, C.a), (1, C.b)):
            C.residue(fi, C.val(C.args[i]), v.R, "argument %d" % (i + 1))
    return [Case("any operands", build, check)]


def c_normalize(E, op):
    return [Case("any internal state", lambda C: C.std("limb"), against),
            Case("canonical input", lambda C: [C.cell(C.limbs("a", box=C.fi.cbox))], keep_canon)]


def keep_canon(C, ret):
    """Normalising a normalised element: still canonical, same residue (so the same limbs)."""
    fi = C.fi
    C.residue(fi, C.val(C.args[0]), C.I.lift(fi, C.I.read_at(C.st0, C.args[0].cell, ())).R, "argument 1")


def c_fill(E, op):
    def build(C):
        C.b = C.bool_("b")
        return C.std("limb", {len(op.args) - 1: C.b})

    def check(C, ret):
        got = ret if op.ret.k in "FM" else C.val(C.args[0])
        mask_is(C, "result", C.fi, got, C.b.p)
    return [Case("either bit", build, check)]


def c_bitand(E, op):
    cs = []

    def mk(swap):
        def build(C):
            C.b = C.bool_("b")
            C.l = C.limbs("a")
            m = C.fmask(C.b)
            return [C.cell(m), C.cell(C.l)] if swap else [C.cell(C.l), C.cell(m)]

        def check(C, ret):
            d = C.I.dom
            for i, (x, l) in enumerate(zip(C.fi.limbs_in(C.val(C.args[0])), C.fi.limbs_in(C.l))):
                if not C.ok(x.p == d.mul(C.b.p, l.p), "spec", "limb %d is not kept by the all-ones mask and cleared by "
                            "the all-zeros mask: %s" % (i, d.show(x.p, 4))):
                    return
        return Case("mask on the left" if swap else "mask on the right", build, check)
    return [mk(False), mk(True)] + [general(op, "BitAnd", "general canonical operands")]


def general(op, bop, label):
    """Bitwise combination of two normalised elements."""
    def build(C):
        C.a, C.b = C.limbs("a", box=C.fi.cbox), C.limbs("b", box=C.fi.cbox)
        return [C.cell(C.a), C.cell(C.b)]

    def check(C, ret):
        limbwise(C, bop, C.fi.limbs_in(C.a), C.fi.limbs_in(C.b))
    return Case(label, build, check)


def limbwise(C, bop, la, lb):
    I = C.I
    got = C.fi.limbs_in(C.val(C.args[0]))
    for i, (x, l, m) in enumerate(zip(got, la, lb)):
        w = I.bitop(bop, l, m)
        if not C.ok(type(x) is IntV and x.p == w.p, "spec", "limb %d is not the %s of the canonical limbs" % (i, bop)):
            return


def c_bitor(E, op):
    def build(C):
        C.b, C.c = C.bool_("b"), C.bool_("c")
        I, d = C.I, C.I.dom
        C.l, C.m = C.fi.limbs_in(C.limbs("a")), C.fi.limbs_in(C.limbs("m"))
        g2 = d.mul(const(1) - C.b.p, C.c.p)

        def guard(g, ls):
            return C.fi.build(E.prog, [I.mk(d.mul(g, x.p), x.bits, x.signed, min(0, x.lo), max(0, x.hi)) for x in ls])
        C.g2 = g2
        return [C.cell(guard(C.b.p, C.l)), C.cell(guard(g2, C.m))]

    def check(C, ret):
        d = C.I.dom
        for i, (x, l, m) in enumerate(zip(C.fi.limbs_in(C.val(C.args[0])), C.l, C.m)):
            if not C.ok(x.p == d.mul(C.b.p, l.p) + d.mul(C.g2, m.p), "spec",
                        "limb %d: or with a cleared element does not keep the other operand: %s" % (i, d.show(x.p, 4))):
                return

    def build0(C):
        C.l = C.limbs("a")
        return [C.cell(C.l), C.cell(C.fi.build(E.prog, [C.I.iconst(0, b, s) for _, b, s in C.fi.leaves]))]

    def check0(C, ret):
        C.ok(C.val(C.args[0]) == C.l, "spec", "or with zero changes the element")
    return [Case("one operand cleared", build, check), Case("or with zero", build0, check0),
            general(op, "BitOr", "general canonical operands")]


def c_norm_bit(E, op):
    bop = "BitAnd" if op.key.endswith("bitand") else "BitOr"
    cs = []

    def build(C):
        C.a, C.b = C.elem("a"), C.elem("b", canon=(op.args[1].by == "ref"))
        return C.std("elem", {0: C.a, 1: C.b})

    def check(C, ret):
        la = C.S.canon_memo.get((C.fi.name, C.a.R.key()))
        lb = C.S.canon_memo.get((C.fi.name, C.b.R.key()))
        if not C.ok(la is not None and lb is not None, "spec",
                    "result is not computed from the canonical representation of both operands"):
            return
        limbwise(C, bop, la, lb)
        if op.args[1].by == "mut":
            C.residue(C.fi, C.val(C.args[1]), C.b.R, "argument 2")
    cs.append(Case("general operands", build, check))
    if op.args[1].by == "ref":
        def build2(C):
            C.a, C.b = C.elem("a"), C.bool_("b")
            m = C.fmask(C.b) if bop == "BitAnd" else FEV(C.fi, RPoly({}, C.fi.p), canon=True)
            return [C.cell(C.a), C.cell(m)]

        def check2(C, ret):
            w = rmul(from_poly(C.b.p, C.fi.p), C.a.R, C.I.dom.boolset) if bop == "BitAnd" else C.a.R
            C.residue(C.fi, C.val(C.args[0]), w, "argument 1")
        cs.append(Case("mask operand" if bop == "BitAnd" else "or with zero", build2, check2))
    return cs


def c_bit(E, op):
    """All indices, on one abstract element."""
    N = op.fi.N
    ity = next(k for k in op.args if k.k == "int")

    def idx(i):
        return IntV(const(i), i, i, ity.bits, ity.signed)

    def run(C, call):
        I, fi, d = C.I, C.fi, C.I.dom
        tot = ZERO
        norm = op.key == "bit_normalized"
        a = C.limbs("a", box=fi.cbox) if norm else C.elem("a")
        bits = []
        for i in range(N):
            st = C.st.copy()
            c = I.newcell(st, a)
            r = call(st, [Ref(c, ()), idx(i)])
            if not C.ok(type(r) is IntV and r.bits == 1, "spec", "bit %d is not a boolean" % i):
                return
            bits.append(r)
            tot = tot + r.p.scale(1 << i)
            if not norm:
                C.residue(fi, I.read_at(st, c, ()), a.R, "argument 1")
                if C.res.problems:
                    return
        if norm:
            ls = fi.limbs_in(a)
        else:
            if all(r.p == bit_atom(I, fi, a, i) for i, r in enumerate(bits)):
                C.res.obl += N
                return
            ls = C.S.canon_memo.get((fi.name, a.R.key()))
            if not C.ok(ls is not None, "spec", "bits are not computed from the canonical representation"):
                return
        V = ZERO
        for i, x in enumerate(ls):
            V = V + x.p.scale(1 << (fi.w * i))
        C.res.obl += N
        if tot == V:
            return
        # locate the first wrong digit
        for i, r in enumerate(bits):
            l, o = divmod(i, fi.w)
            if l >= fi.L:
                l, o = fi.L - 1, i - fi.w * (fi.L - 1)
            w = I.bitop("BitAnd", I.shift("Shr", ls[l], I.iconst(o)), I.iconst(1))
            if r.p != w.p:
                C.fail("spec", "index %d does not yield binary digit %d of the canonical value but %s" %
                       (i, i, d.show(r.p, 4)))
                return
        C.fail("spec", "the digits do not add up to the canonical value: %s" % d.show(tot - V, 4))
    return [Case("every index below %d" % N, None, None, run=run)]


def c_nbits(E, op):
    def check(C, ret):
        C.ok(type(ret) is IntV and ret.known() and ret.lo == C.fi.p.bit_length(), "spec",
             "advertised bit count is %s, the modulus has %d bits" % (getattr(ret, "lo", "?"), C.fi.p.bit_length()))
    return [Case("constant", lambda C: [], check)]


def c_nbytes(E, op):
    def check(C, ret):
        C.ok(type(ret) is IntV and ret.known() and ret.lo == nbytes(C.fi), "io",
             "advertised packed size is %s, the modulus needs %d bytes" % (getattr(ret, "lo", "?"), nbytes(C.fi)))
    return [Case("constant", lambda C: [], check)]


def c_const(val, canon):
    def mk(E, op):
        def check(C, ret):
            fi = C.fi
            ls = fi.limbs_in(ret) if type(ret) is Agg else None
            if not C.ok(ls is not None and all(type(x) is IntV and x.known() for x in ls), "spec", "not a constant"):
                return
            v = [x.lo for x in ls]
            C.ok(fi.value(v) == val(fi), "spec", "denotes %s, not %s" % (hexs(fi.value(v)), hexs(val(fi))))
            C.ok(all(0 <= x < 1 << fi.w for x in v[:-1]) and v[-1] >= 0, "spec", "limbs are not in canonical form")
        return [Case("constant", lambda C: [], check)]
    return mk


def c_clone(E, op):
    def build(C):
        k = op.args[0]
        if k.k == "P":
            v = group.coords(C, "P", ci=k.ci)[0]
        elif k.k == "F":
            v = C.limbs("a")
        else:
            v = C.limbs("a", k.fi, [ty_range(b, s) for _, b, s in k.fi.leaves])
        C.v = v
        return [C.cell(v)]

    def check(C, ret):
        C.ok(ret == C.v, "spec", "the copy differs from the original")
    return [Case("any value", build, check)]


# ------------------------------------------------------------------ bytes
def value_of(C, ls):
    V = ZERO
    for i, x in enumerate(ls):
        V = V + x.p.scale(1 << (C.fi.w * i))
    return V


def bytes_are(C, bs, a=None, ls=None):
    """bs are the base-256 digits of the canonical value of element a (or of the limbs ls)."""
    I, fi, d = C.I, C.fi, C.I.dom
    if not C.ok(all(type(b) is IntV for b in bs), "spec", "a byte is undetermined"):
        return
    if ls is None:
        if all(b.p == byte_poly(I, fi, a, j) for j, b in enumerate(bs)):
            C.res.obl += len(bs)
            return
        ls = C.S.canon_memo.get((fi.name, a.R.key()))
        if not C.ok(ls is not None, "spec", "bytes are not computed from the canonical representation"):
            return
    tot = ZERO
    for j, b in enumerate(bs):
        tot = tot + b.p.scale(256 ** j)
    V = value_of(C, ls)
    if tot == V:
        C.res.obl += len(bs)
        return
    for j, b in enumerate(bs):
        w = digit(C, ls, 8 * j, 8)
        if b.p != w:
            C.fail("spec", "byte %d is %s, not base-256 digit %d of the canonical value, %s" %
                   (j, d.show(b.p, 4), j, d.show(w, 4)))
            return
    C.fail("spec", "the bytes do not add up to the canonical value: %s" % d.show(tot - V, 4))


def digit(C, ls, lo, n):
    """Bits [lo, lo+n) of the value with canonical limbs ls."""
    I, fi = C.I, C.fi
    out = ZERO
    for i, x in enumerate(ls):
        base = fi.w * i
        top = base + fi.w if i < fi.L - 1 else base + 62
        s, e = max(lo, base), min(lo + n, top)
        if s >= e:
            continue
        t = I.bitop("BitAnd", I.shift("Shr", x, I.iconst(s - base)), I.iconst((1 << (e - s)) - 1))
        out = out + t.p.scale(1 << (s - lo))
    return out


def written(C, ref):
    """Bytes stored into an output buffer; checks that exactly the prefix is written."""
    v = C.I.read_at(C.st, ref.cell, ref.path)
    n = nbytes(C.fi)
    if type(v) is Agg:
        return list(v.f)[:n]
    got = set(v.w)
    miss = sorted(set(range(n)) - got)
    more = sorted(got - set(range(n)))
    C.ok(not miss, "io", "byte %s of the output is never written" % miss[:4])
    C.ok(not more, "io", "byte %s beyond the packed size is written" % more[:4])
    return [v.w[j] for j in range(n)] if not miss else None


def c_pack_normalized(E, op):
    def build(C):
        C.a = C.limbs("a", box=C.fi.cbox)
        return C.std("limb", {0: C.a})

    def check(C, ret):
        bs = written(C, C.args[1])
        if bs:
            bytes_are(C, bs, ls=C.fi.limbs_in(C.a))
    return [Case("any normalised element, any buffer of at least the packed size", build, check)]


def c_pack(E, op):
    def build(C):
        C.a = C.elem("a")
        return C.std("elem", {0: C.a})

    def check(C, ret):
        bs = written(C, C.args[1])
        if bs:
            bytes_are(C, bs, C.a)
        C.residue(C.fi, C.val(C.args[0]), C.a.R, "argument 1")
    return [Case("any element, any buffer of at least the packed size", build, check)]


def c_packed(E, op):
    def build(C):
        C.a = C.elem("a")
        return C.std("elem", {0: C.a})

    def check(C, ret):
        n = nbytes(C.fi)
        if not C.ok(type(ret) is Agg and len(ret.f) == n, "io", "the packed array has %s bytes, the packed size is %d"
                    % (len(ret.f) if type(ret) is Agg else "?", n)):
            return
        bytes_are(C, list(ret.f), C.a)
        C.residue(C.fi, C.val(C.args[0]), C.a.R, "argument 1")
    return [Case("any element", build, check)]


def c_unpack(E, op):
    si = next(i for i, k in enumerate(op.args) if k.k in ("slice", "array"))

    def mk(full):
        def build(C):
            n = nbytes(C.fi)
            C.extra["bytehi"] = {} if full else {n - 1: (1 << (C.fi.N - 8 * (n - 1))) - 1}
            return C.std("limb")

        def check(C, ret):
            fi, d = C.fi, C.I.dom
            v = C.val(C.args[0]) if op.ret.k == "unit" else ret
            n = nbytes(fi)
            src = C.I.read_at(C.st, C.args[si].cell, C.args[si].path)
            if type(src) is SymArr:
                more = sorted(j for j in src.reads if isinstance(j, int) and not 0 <= j < n)
                C.ok(not more, "io", "byte %s beyond the packed size is read" % more[:4])
                C.ok(not src.w, "io", "the input buffer is modified")
            if full:
                return
            ls = fi.limbs_in(v)
            tot = ZERO
            for j in range(n):
                tot = tot + src.elem(j).p.scale(256 ** j)
            V = value_of(C, ls)
            if not C.ok(V == tot, "spec", "the element's value is not the little-endian value of the bytes: %s differs"
                        % first_diff(C, V, tot)):
                return
            for i, x in enumerate(ls):
                lo, hi = d.ivx(x.p)
                lo, hi = max(lo, x.lo), min(hi, x.hi)
                C.ok(fi.cbox[i][0] <= lo and hi <= fi.cbox[i][1], "canon", "limb %d can be in [%s, %s]: not in "
                     "normalised form" % (i, hexs(lo), hexs(hi)))
        return Case("any byte string" if full else "any encoding of a number below 2^%d" % op.fi.N, build, check)
    return [mk(False), mk(True)]


def first_diff(C, V, W):
    D = V - W
    if not D.d:
        return "nothing"
    names = sorted({C.I.dom.aname(a) for a in D.atoms()})
    return ", ".join(names[:3])


# ------------------------------------------------------------------ formatting
def hexdigits(C, log, kind):
    """The output as a list of hexadecimal digits (polynomials in [0, 15]), or None with a reason."""
    out = []
    alpha = "0123456789abcdef" if kind == "lower_hex" else "0123456789ABCDEF"
    for x in log:
        if x[0] == "arg":
            _, k, v, flags, width, prec = x
            if k == "display" and type(v) is IntV and v.bits == 32 and not flags and not width:
                q = hexchar(C, v.p, alpha)
                if q is None:
                    return None, "a character is printed that is not the hexadecimal digit of a number"
                out.append(q)
                continue
            if k != kind:
                return None, "a byte is printed as %s instead of %s" % (k, kind)
            if type(v) is not IntV or v.lo < 0:
                return None, "a group is not an unsigned number"
            # fill character in bits 0-20, then '+', '-', '#', '0', debug-hex, and the alignment in bits 29-30
            fl = 0 if flags is None else flags
            zp = fl >> 24 & 1 or fl & 0x1fffff == 0x30 and fl >> 29 & 3 in (1, 3)
            if width > 1 and not zp or prec or fl >> 21 & 5:
                return None, "a group is not printed as zero-padded digits"
            width = max(width, 1)
            if v.hi >> (4 * width):
                return None, "a group of %d digits can be as large as %s" % (width, hexs(v.hi))
            if width > 1 and 16 ** (width - 1) > v.hi:
                pass
            qs = [v.p] + [C.I.dom.floor(v.p, 4 * i, v.lo, v.hi) for i in range(1, width)] + [ZERO]
            out += [qs[i] - qs[i + 1].scale(16) for i in reversed(range(width))]
        elif x[0] == "lit":
            s = x[1].decode("latin1")
            if any(c not in alpha for c in s):
                return None, "literal text %r is printed" % s
            out += [const(int(c, 16)) for c in s]
        elif x[0] == "bytes":
            for v in x[1]:
                q = hexchar(C, v.p, alpha)
                if q is None:
                    return None, "a character is printed that is not the hexadecimal digit of a number"
                out.append(q)
        else:
            return None, "unrecognised output"
    return out, None


def hexchar(C, p, alpha):
    """The number in [0, 15] whose hexadecimal digit the character p is, by table lookup or comparison."""
    d = C.I.dom
    if p.is_const():
        return const(alpha.index(chr(p.const()))) if chr(p.const()) in alpha else None
    cands, seen, todo = [p - const(48), p - const(ord(alpha[10]) - 10)], set(), [p]
    while todo:
        for a in todo.pop().atoms() - seen:
            seen.add(a)
            at = d.at[a]
            if at.kind in ("eq", "lt"):
                x = at.data - const(at.data.d.get((), 0))
                cands += [x, x.scale(-1)]
                todo.append(at.data)
            elif at.kind == "q":
                todo.append(at.data[0])
    for q in cands:
        lo, hi = d.ivx(q)
        if lo < 0 or hi > 15:
            continue
        if all(char_at(d, p, q, k) == ord(alpha[k]) for k in range(lo, hi + 1)):
            return q
    return None


def char_at(d, p, q, k):
    """The value of p where q = k, as far as it depends on q alone."""
    x = next((m[0] for m, c in q.d.items() if len(m) == 1 and abs(c) == 1 and
              not any(m[0] in n for n in q.d if n != m)), None)
    if x is None:
        return None
    q1 = Poly({(x,): q.d[(x,)]})
    env = {x: (const(k) - (q - q1)).scale(q.d[(x,)])}
    inside = set((q - q1).atoms())         # what q itself is made of stays as it is

    def ev(r):
        for a in r.atoms():
            if a in env or a in inside:
                continue
            at = d.at[a]
            v = None
            if at.kind in ("eq", "lt"):
                z = ev(at.data)
                if z.is_const():
                    v = int(z.const() == 0 if at.kind == "eq" else z.const() < 0)
            elif at.kind == "q":
                z = ev(at.data[0])
                if z.is_const():
                    v = z.const() >> at.data[1]
            elif at.kind == "and":
                z = [ev(y) for y in at.data]
                if all(y.is_const() for y in z):
                    v = z[0].const() & z[1].const()
            if v is None:
                inside.add(a)
            else:
                env[a] = const(v)
        return d.subst(r, env)
    w = ev(p)
    return w.const() if w.is_const() else None


def c_fmt(E, op):
    which = op.key[4:]

    def run(C, call):
        I, fi = C.I, C.fi
        n = nbytes(fi)
        a = C.elem("a")
        sym = which in ("LowerHex", "UpperHex")

        def once(fail_at):
            st = C.st.copy()
            c = I.newcell(st, a)
            s = I.newcell(st, Sink((), fail_at))
            r = call(st, [Ref(c, ()), Ref(s, ())])
            C.residue(fi, I.read_at(st, c, ()), a.R, "argument 1")
            return r, I.read_at(st, s, ())
        r, s = once(None)
        C.ok(variant(r) == 0, "spec", "formatting fails although the sink accepts everything")
        if sym:
            ds, why = hexdigits(C, s.log, "lower_hex" if which == "LowerHex" else "upper_hex")
            if C.ok(ds is not None, "spec", why or ""):
                if C.ok(len(ds) == 2 * n, "spec", "%d digits are printed, the canonical encoding has %d" %
                        (len(ds), 2 * n)):
                    bs = [IntV(ds[i].scale(16) + ds[i + 1], 0, 255, 8, False) for i in reversed(range(0, 2 * n, 2))]
                    bytes_are(C, bs, a)
        for k in range(len(s.log)):
            r, s2 = once(k)
            if not C.ok(variant(r) == 1, "spec", "the error of write number %d is not reported" % (k + 1)):
                break
            C.ok(len(s2.log) == k + 1, "spec", "writing goes on after the error of write number %d" % (k + 1))
    return [Case("any element, any sink", None, None, run=run)]


def c_debug(E, op):
    """Name: [ limb, limb, ... ] with the limbs in hexadecimal, as they are."""
    def run(C, call):
        I, fi = C.I, C.fi
        a = C.limbs("a")

        def once(fail_at):
            st = C.st.copy()
            c = I.newcell(st, a)
            s = I.newcell(st, Sink((), fail_at))
            r = call(st, [Ref(c, ()), Ref(s, ())])
            C.ok(same(leaves(I.read_at(st, c, ())), leaves(a)), "intact", "formatting changes the element")
            return r, I.read_at(st, s, ())
        r, s = once(None)
        C.ok(variant(r) == 0, "spec", "formatting fails although the sink accepts everything")
        want = []
        for i, v in enumerate(leaves(a)):
            want += [", " if i else fi.name.split("::")[-1] + ": [ ", v]
        want.append(" ]")
        got = [""]
        for x in s.log:
            if x[0] == "lit":
                if type(got[-1]) is not str:
                    got.append("")
                got[-1] += x[1].decode("latin1")
            elif x[0] == "arg" and x[1] == "lower_hex" and type(x[2]) is IntV and not x[3] and x[4] <= 1 and not x[5]:
                got.append(x[2])
            else:
                C.ok(False, "spec", "something other than text and plain lower-case hexadecimal numbers is printed")
                return
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            if type(w) is str:
                ok, what = g == w, "the text %r" % w
            else:
                ok = type(g) is IntV and g.p == w.p and (g.bits == w.bits or g.lo >= 0 and w.lo >= 0)
                what = "limb %d" % (i // 2)
            if not C.ok(ok, "spec", "%s is not printed where it belongs (piece %d of the output)" % (what, i + 1)):
                return
        C.ok(len(got) == len(want), "spec", "more is printed than the limbs")
        for k in range(len(s.log)):
            r, s2 = once(k)
            if not C.ok(variant(r) == 1, "spec", "the error of write number %d is not reported" % (k + 1)):
                break
            C.ok(len(s2.log) == k + 1, "spec", "writing goes on after the error of write number %d" % (k + 1))
    return [Case("any element, any sink", None, None, run=run)]


def leaves(v):
    if type(v) is IntV:
        return [v]
    return [y for x in v.f for y in leaves(x)] if type(v) is Agg else [v]


def same(a, b):
    return len(a) == len(b) and all(type(x) is IntV and type(y) is IntV and x.p == y.p for x, y in zip(a, b))


def variant(r):
    if type(r) is EnumV and len(r.alts) == 1:
        return r.alts[0][1]
    return None


# ------------------------------------------------------------------ random elements
def c_rand(E, op):
    def build(C):
        return C.std("elem")

    def check(C, ret):
        fi, I, d = C.fi, C.I, C.I.dom
        C.canonical(fi, ret, "return value")
        R = I.resolve(I.lift(fi, ret).R)
        coef = {}
        for m, c in R.d.items():
            c = c if c <= fi.p // 2 else c - fi.p
            if not m:
                continue
            if not C.ok(len(m) == 1 and m[0][1] == 1, "spec", "the result is not a positional combination of draws"):
                C.ok(False, "dist", "the result is not a positional combination of draws")
                return
            coef[m[0][0]] = c
        dist(C, coef)
        parts = fields_of(C, coef, "spec", False)
        if parts is None:
            return
        if not C.ok(bool(parts), "spec", "the result does not depend on the random source"):
            return
        h = fi.p // 2
        parts = [((c % fi.p) - fi.p if c % fi.p > h else c % fi.p, 0, n - 1) for c, n, _, _, _ in parts]
        reach = 0
        for c, lo, hi in sorted(parts, key=lambda t: abs(t[0])):
            if not C.ok(abs(c) <= reach + 1, "spec", "no output of the random source yields some residues: a digit "
                        "of weight %s follows digits reaching only %s" % (hexs(abs(c)), hexs(reach))):
                return
            reach += abs(c) * (hi - lo)
        C.ok(reach + 1 >= fi.p, "spec", "only %s of the %s residues can occur" % (hexs(reach + 1), hexs(fi.p)))

    def fields_of(C, coef, kind, even):
        """The combination as a sum over disjoint bit fields of the draws: (weight, number of values, draw, first bit,
        end bit), or None after a complaint.  Fields of one draw vary independently when the draw's range is aligned."""
        fi, d = C.fi, C.I.dom
        coef = dict(coef)
        parts = []
        for a in sorted(coef):
            at = d.at[a]
            if a not in coef or at.kind != "sym" or not at.name.startswith("draw"):
                continue
            c, size = coef.pop(a), at.hi - at.lo + 1
            # c * (draw mod 2^k) = c * draw - c 2^k floor(draw / 2^k)
            q = next((b for b in coef if d.at[b].kind == "q" and d.at[b].data[0] == d.var(a) and
                      (coef[b] + (c << d.at[b].data[1])) % fi.p == 0), None)
            if q is not None:
                k = d.at[q].data[1]
                coef.pop(q)
                if not C.ok(at.lo % (1 << k) == 0 and size % (1 << k) == 0, kind, "the low %d bits of a draw from "
                            "[%s, %s] are not equally likely" % (k, hexs(at.lo), hexs(at.hi))):
                    return None
                parts.append((c, 1 << k, a, 0, k))
            else:
                parts.append((c, size, a, 0, None))
        for b in sorted(coef):
            at = d.at[b]
            inner = at.data[0] if at.kind == "q" else None
            a = next((x for x in (inner.atoms() if inner is not None else ()) if inner == d.var(x)), None)
            if not C.ok(a is not None and d.at[a].kind == "sym" and d.at[a].name.startswith("draw"), kind,
                        "the result depends on the draws in an unrecognised way"):
                return None
            k, s = at.data[1], d.at[a]
            if even and not C.ok(s.lo % (1 << k) == 0 and (s.hi + 1) % (1 << k) == 0, kind, "the bits from %d of a draw "
                                 "from [%s, %s] are not equally likely" % (k, hexs(s.lo), hexs(s.hi))):
                return None
            parts.append((coef[b], at.hi - at.lo + 1, a, k, None))
        for i, (_, _, a, lo, hi) in enumerate(parts):
            for _, _, b, lo2, hi2 in parts[i + 1:]:
                if a == b and not C.ok((hi is not None and hi <= lo2) or (hi2 is not None and hi2 <= lo), kind,
                                       "overlapping bits of one draw are used twice"):
                    return None
        return parts

    def dist(C, coef):
        """Bound on the distance to the uniform distribution, for independent uniform draws.  The result is
        const + sum c_i D_i with each D_i a whole draw or a bit field of one; if the c_i of some of them are (up to sign)
        1, |D_1|, |D_1||D_2|, ... modulo p, their sum takes N consecutive integer values equally often, and the
        remaining independent terms cannot increase the distance r (p - r) / (p N), r = N mod p, of that sum mod p."""
        fi = C.fi
        parts = fields_of(C, coef, "dist", True)
        if parts is None:
            return
        N, left = 1, list(parts)
        while True:
            nxt = next((x for x in left if x[0] % fi.p in (N % fi.p, -N % fi.p)), None)
            if nxt is None:
                break
            left.remove(nxt)
            N *= nxt[1]
        r = N % fi.p
        C.ok(r * (fi.p - r) << 64 <= fi.p * N, "dist", "the draws are not an even choice among the residues: contiguous "
             "digits give only %s equally likely values for %s residues (statistical distance above 2^-64)"
             % (hexs(N), hexs(fi.p)))
    return [Case("any random source", build, check)]


# ------------------------------------------------------------------ square roots
def c_sqrt(E, op):
    def build(C):
        s = C.I.dom.atom("fe", "s", 0, C.fi.p - 1, name="s", public=False)
        r = rvar(s, C.fi.p)
        C.sq = rmul(r, r, C.I.dom.boolset)
        return [C.by(op.args[0], FEV(C.fi, C.sq))]

    def check(C, ret):
        fi = C.fi
        bs = C.I.dom.boolset
        R = C.I.resolve(C.I.lift(fi, ret).R)
        C.residue(fi, FEV(fi, rmul(R, R, bs)), C.sq, "square of the result")
        if op.args[0].by != "val":
            C.residue(fi, C.val(C.args[0]), C.sq, "argument 1")

    def build2(C):
        return C.std("elem")
    return [Case("any square s^2", build, check), Case("any element", build2, lambda C, r: None)]


def c_legendre(E, op):
    def check(C, ret):
        fi = C.fi
        a = C.I.lift(fi, C.I.read_at(C.st0, C.args[0].cell, ()) if type(C.args[0]) is Ref else C.args[0])
        C.residue(fi, ret, rpow(a.R, (fi.p - 1) // 2, C.I.dom.boolset), "return value")
        if type(C.args[0]) is Ref:
            C.residue(fi, C.val(C.args[0]), a.R, "argument 1")
    return [Case("any element", lambda C: C.std("elem"), check)]


CASES = {
    "normalize": c_normalize, "normalize_self_eq": c_self_eq, "normalize_eq": c_self_eq,
    "fill": c_fill, "filled": c_fill, "mask_fill": c_fill, "mask_filled": c_fill,
    "normalized_bitand": c_bitand, "normalized_bitor": c_bitor,
    "normalize_bitand": c_norm_bit, "normalize_self_bitand": c_norm_bit,
    "normalize_bitor": c_norm_bit, "normalize_self_bitor": c_norm_bit,
    "bit": c_bit, "bit_normalized": c_bit, "nbits": c_nbits, "nbytes": c_nbytes,
    "zero": c_const(lambda f: 0, True), "one": c_const(lambda f: 1, True),
    "m_one": c_const(lambda f: f.p - 1, True), "modulus": c_const(lambda f: f.p, False),
    "clone": c_clone, "pack_normalized": c_pack_normalized, "pack": c_pack, "packed": c_packed,
    "unpack": c_unpack, "unpacked": c_unpack, "rand": c_rand, "sqrt": c_sqrt, "legendre": c_legendre,
}


def cases(E, op):
    if op.key == "fmt:Debug":
        return c_debug(E, op)
    if op.key.startswith("fmt:"):
        return c_fmt(E, op)
    h = CASES.get(op.key)
    if h is not None:
        return h(E, op)
    h = group.CASES.get(op.key)
    if h is not None:
        return h(E, op)
    if op.key in SUMMARIES:
        return c_default(E, op)
    raise Unsupported("no specification for operation " + op.key)
