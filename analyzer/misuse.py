"""Calls the library refuses: buffers shorter than the packed size, bit indices out of range.

Such a call panics.  The state in which it panics is what a caller that survives the panic (catch_unwind, another
thread) goes on with, so every element in it must still be the element it was, or at least satisfy the carry bound.
"""
from dom import const
from interp import Agg, Diverge, FEV, IntV, Ref, Unsupported, hexs
from oblig import Case, TimeBound
from specs import nbytes

KEYS = ("pack", "pack_normalized", "unpack", "unpacked", "bit", "bit_normalized")
KINDS = {"misuse", "analysis"}


class Watch:
    """Collects the states in which a call panics."""

    def __init__(self, C, look):
        self.C, self.look, self.n = C, look, 0

    def __call__(self, I, kind, detail, args):
        st = I.cur
        self.n += 1
        if st is not None:
            self.look(st, detail)
        for a in args or ():
            if shows_secret(I, st, a, 0):
                self.C.fail("misuse", "the message of the panic contains the value of an element (%s)" % detail)


def shows_secret(I, st, v, depth):
    if depth > 6:
        return False
    if type(v) is FEV:
        return True
    if type(v) is IntV:
        return not v.known() and I.secret(v.p)
    if type(v) is Ref:
        try:
            return shows_secret(I, st, I.read_at(st, v.cell, v.path), depth + 1)
        except (Unsupported, KeyError):
            return False
    if type(v) is Agg:
        return any(shows_secret(I, st, x, depth + 1) for x in v.f)
    if isinstance(v, tuple):
        return any(shows_secret(I, st, x, depth + 1) for x in v if not isinstance(x, (str, bytes)))
    return False


def attempt(C, call, st, args, look):
    """Runs one call; returns (value or None, number of panics)."""
    I = C.I
    w = Watch(C, look)
    I.on_panic, I.cur = w, st
    try:
        return call(st, args), w.n, True
    except Diverge:
        return None, w.n, False
    finally:
        I.on_panic = None


def valid(C, st, ref, what):
    v = C.I.read_at(st, ref.cell, ref.path)
    n = len(C.res.problems)
    C.inbox(C.fi, v, what)
    C.res.problems[n:] = [("misuse",) + tuple(p[1:]) for p in C.res.problems[n:]]


def buffers(E, op):
    si = next((i for i, k in enumerate(op.args) if k.k == "slice"), None)
    if si is None:
        return []
    packs = op.key.startswith("pack")

    def run(C, call):
        fi, n = C.fi, nbytes(C.fi)
        for k in range(n):
            st = C.st.copy()
            I = C.I
            buf = Ref(I.newcell(st, Agg(tuple(C.sym("buf[%d]" % j, 0, 255, 8, False) for j in range(k)))), (),
                      (0, I.usize(k)))
            args, me = [], None
            for i, kd in enumerate(op.args):
                if i == si:
                    args.append(buf)
                    continue
                C.a = C.elem("a", canon=(op.key == "pack_normalized")) if packs else C.limbs("a")
                me = Ref(I.newcell(st, C.a), ())
                args.append(me if kd.by != "val" else C.a)

            def look(s, detail):
                if me is None:
                    return
                valid(C, s, me, "after the panic on a buffer of %d bytes, the element" % k)
                if packs:
                    C.residue(fi, I.read_at(s, me.cell, ()), C.a.R, "after the panic on a buffer of %d bytes, the element"
                              % k, "misuse")
            v, panics, returned = attempt(C, call, st, args, look)
            C.ok(not returned, "misuse", "a buffer of %d bytes is accepted, the packed size is %d" % (k, n))
            if not returned:
                C.ok(panics > 0, "misuse", "a buffer of %d bytes makes the call hang" % k)
            if C.res.problems:
                return
    return [Case("every buffer shorter than the packed size", None, None, run=run)]


def indices(E, op):
    ity = next(k for k in op.args if k.k == "int")
    N = op.fi.N

    def run(C, call):
        I, fi, d = C.I, C.fi, C.I.dom
        top = (1 << ity.bits) - 1

        def one(iv, say):
            st = C.st.copy()
            C.a = C.elem("a", canon=(op.key == "bit_normalized"))
            me = Ref(I.newcell(st, C.a), ())

            def look(s, detail):
                valid(C, s, me, "after the panic on %s, the element" % say)
                C.residue(fi, I.read_at(s, me.cell, ()), C.a.R, "after the panic on %s, the element" % say, "misuse")
            v, panics, returned = attempt(C, call, st, [me, iv], look)
            if returned:
                C.ok(type(v) is IntV and v.known() and v.lo == 0, "misuse", "%s is accepted and does not read as zero "
                     "but as %s" % (say, d.show(v.p, 4) if type(v) is IntV else v))
                C.residue(fi, I.read_at(st, me.cell, ()), C.a.R, "the element", "misuse")
            return panics
        far = N + 2 * fi.w
        for i in range(N, far):
            one(IntV(const(i), i, i, ity.bits, ity.signed), "bit index %d" % i)
            if C.res.problems:
                return
        try:
            one(C.sym("idx", far, top, ity.bits, ity.signed, public=True), "a bit index from %d" % far)
            C.res.counts["misuse:all-indices"] = 1
        except TimeBound:
            raise
        except Unsupported:
            del C.res.problems[:]
            for i in sorted({far, 512, 1 << 10, 1 << 16, (1 << 31) - 1, 1 << 31, top >> 1, (top >> 1) + 1, top}
                            | {1 << j for j in range(10, ity.bits)}):
                if far <= i <= top:
                    try:
                        one(IntV(const(i), i, i, ity.bits, ity.signed), "bit index %d" % i)
                    except Unsupported:
                        C.res.counts["misuse:undecided-indices"] = C.res.counts.get("misuse:undecided-indices", 0) + 1
    return [Case("every bit index from %d" % N, None, None, run=run)]


def cases(E, op):
    if op.key in ("bit", "bit_normalized"):
        return indices(E, op)
    if op.key in KEYS:
        return buffers(E, op)
    return []
