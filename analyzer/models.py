"""Transfer functions for library functions whose MIR is not interpreted."""
import re
from dom import ZERO, const
from interp import (Agg, EnumV, FEV, FnV, IntV, IterV, PTV, Ref, SymArr, Top, UNINIT, UNIT, Diverge, Unsupported,
                    ty_range)


class It:
    """Lazy iterator over a known number of items.
    kinds: ("list", items) ("map", inner, closcell, clostid) ("zip", a, b) ("enum", inner, k)
    ("open", items): at least these items, then an unknown number of others"""
    __slots__ = ("k", "a", "b", "c")

    def __init__(self, k, a, b=None, c=None):
        self.k, self.a, self.b, self.c = k, a, b, c

    def __eq__(self, o):
        return type(o) is It and (self.k, self.a, self.b, self.c) == (o.k, o.a, o.b, o.c)

    def __repr__(self):
        return "It(%s)" % self.k


class NotModelled(Unsupported):
    """Raised before any effect when a model does not cover its arguments: the body is interpreted instead."""

    def __init__(self, fn, msg):
        Unsupported.__init__(self, msg)
        self.fn = fn


class Sink:
    """The receiver of formatted output."""
    __slots__ = ("log", "fail_at")

    def __init__(self, log=(), fail_at=None):
        self.log, self.fail_at = log, fail_at

    def __eq__(self, o):
        return type(o) is Sink and self.log == o.log

    def __repr__(self):
        return "Sink%d" % len(self.log)

    @staticmethod
    def merge(I, conds, vals):
        """Texts of the same shape that differ in some characters."""
        if len({len(v.log) for v in vals}) > 1 or len({v.fail_at for v in vals}) > 1:
            return None
        out = []
        for xs in zip(*(v.log for v in vals)):
            if all(x == xs[0] for x in xs):
                out.append(xs[0])
                continue
            cs = []
            for x in xs:
                if x[0] == "bytes":
                    cs.append(x[1])
                elif x[0] == "lit" and all(b < 128 for b in x[1]):
                    cs.append(tuple(I.iconst(b, x2.bits, x2.signed) for b, x2 in zip(x[1], sample(xs, len(x[1])))))
                else:
                    return None
            if len({len(c) for c in cs}) > 1 or len({(y.bits, y.signed) for c in cs for y in c}) > 1:
                return None
            out.append(("bytes", tuple(I.merge_vals(conds, list(ys)) for ys in zip(*cs))))
        return Sink(tuple(out), vals[0].fail_at)


def sample(xs, n):
    """Values of the type in which the characters of one of the items are kept."""
    for x in xs:
        if x[0] == "bytes" and len(x[1]) == n:
            return x[1]
    return [IntV(const(0), 0, 0, 8, False)] * n


class Rng:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Rng and self.n == o.n


def it_len(it):
    if it.k == "list":
        return len(it.a)
    if it.k in ("map", "enum", "deref"):
        return it_len(it.a)
    if it.k == "zip":
        return min(it_len(it.a), it_len(it.b))
    if it.k == "chain":
        return it_len(it.a) + it_len(it.b)
    raise Unsupported("iteration over a buffer of symbolic length" if it.k == "open" else "iterator length")


def it_lo(it):
    """(guaranteed number of items, exact?)"""
    if it.k == "repeat":
        return 1 << 40, False
    if it.k == "open":
        return len(it.a), False
    if it.k in ("map", "enum", "deref"):
        return it_lo(it.a)
    return it_len(it), True


def it_zip(a, b):
    (n, ea), (m, eb) = it_lo(a), it_lo(b)
    if not ea and eb and m <= n:
        a = it_take(a, m)
    elif ea and not eb and n <= m:
        b = it_take(b, n)
    return It("zip", a, b)


def it_rev(it):
    if it.k == "list":
        return It("list", tuple(reversed(it.a)))
    if it.k == "map":
        return It("map", it_rev(it.a), it.b, it.c)
    if it.k == "deref":
        return It("deref", it_rev(it.a))
    if it.k == "enum":
        n = it_len(it.a)
        return It("zip", It("list", tuple(("usize", it.b + i) for i in reversed(range(n)))), it_rev(it.a))
    if it.k == "zip":
        n = it_len(it)
        return It("zip", it_rev(it_take(it.a, n)), it_rev(it_take(it.b, n)))
    if it.k == "chain":
        return It("chain", it_rev(it.b), it_rev(it.a))
    raise Unsupported("reverse iterator")


def it_slice(it, lo, hi):
    if it.k == "list":
        return It("list", it.a[lo:hi])
    if it.k == "open":
        if hi is None or hi > len(it.a):
            return It("open", it.a[lo:])
        return It("list", it.a[lo:hi])
    if it.k == "map":
        return It("map", it_slice(it.a, lo, hi), it.b, it.c)
    if it.k == "deref":
        return It("deref", it_slice(it.a, lo, hi))
    if it.k == "enum":
        return It("enum", it_slice(it.a, lo, hi), it.b + lo)
    if it.k == "zip":
        return It("zip", it_slice(it.a, lo, hi), it_slice(it.b, lo, hi))
    if it.k == "repeat":
        return it if hi is None else It("list", (it.a,) * (hi - lo))
    if it.k == "chain":
        n, exact = it_lo(it.a)
        if exact:
            return It("chain", it_slice(it.a, min(lo, n), n if hi is None else min(hi, n)),
                      it_slice(it.b, max(lo - n, 0), None if hi is None else max(hi - n, 0)))
    raise Unsupported("iterator slice")


def it_take(it, n):
    return it_slice(it, 0, n)


def it_next(I, st, it):
    """-> (value or None, new iterator)"""
    if it.k == "filter":
        while True:
            x, inner = it_next(I, st, it.a)
            it = It("filter", inner, it.b, it.c)
            if x is None:
                return None, it
            keep = call_closure(I, st, it.b, it.c, [Ref(I.newcell(st, x), ())])
            if not keep.known():
                raise Unsupported("filter on an unknown condition")
            if keep.lo:
                return x, it
    if it.k == "open":
        if not it.a:
            raise Unsupported("iteration over a buffer of symbolic length")
        return it.a[0], It("open", it.a[1:])
    if it.k == "list":
        if not it.a:
            return None, it
        v = it.a[0]
        if isinstance(v, tuple) and v[0] == "usize":
            v = I.usize(v[1])
        return v, It("list", it.a[1:])
    if it.k == "map":
        v, inner = it_next(I, st, it.a)
        if v is None:
            return None, it
        return call_closure(I, st, it.b, it.c, [v]), It("map", inner, it.b, it.c)
    if it.k == "deref":
        v, inner = it_next(I, st, it.a)
        if v is None:
            return None, it
        return I.read_at(st, v.cell, v.path), It("deref", inner)
    if it.k == "enum":
        v, inner = it_next(I, st, it.a)
        if v is None:
            return None, it
        return Agg((I.usize(it.b), v)), It("enum", inner, it.b + 1)
    if it.k == "zip":
        v, a = it_next(I, st, it.a)
        if v is None:
            return None, it
        w, b = it_next(I, st, it.b)
        if w is None:
            return None, It("zip", a, b)
        return Agg((v, w)), It("zip", a, b)
    if it.k == "repeat":
        return it.a, it
    if it.k == "chain":
        v, a = it_next(I, st, it.a)
        if v is None:
            return it_next(I, st, it.b)
        return v, It("chain", a, it.b)
    raise Unsupported("iterator")


def call_closure(I, st, cell, tid, args):
    t = I.ty(tid)
    if t["k"] == "fndef":
        return I.call_value(st, FnV(tid), list(args))
    if t["k"] == "ref":
        r = st.cells[cell]
        if type(r) is Ref and not r.path:
            return call_closure(I, st, r.cell, t["to"], args)
        raise Unsupported("closure reference")
    if t["k"] == "fnptr":
        return I.call_value(st, st.cells[cell], list(args))
    if t["k"] != "closure":
        raise Unsupported("call of " + t.get("str", "?"))
    for fid in t["fns"]:
        fn = I.prog.fns[fid]
        if fn.body is None or fn.d.get("kind") == "Shim":
            continue
        b = fn.body
        selfk = I.ty(b["locals"][1])["k"]
        s = Ref(cell, ()) if selfk in ("ref", "ptr") else st.cells[cell]
        return I.inline(st, fn, [s] + list(args)) if b["argc"] == 1 + len(args) else \
            I.inline(st, fn, [s, Agg(tuple(args))])
    raise Unsupported("closure without body")


def clos_tid(I, fn, v, idx):
    """Type of the closure argument of a library function, from its generic arguments."""
    for k, a in reversed(fn.targs):
        if k == "t" and I.ty(a)["k"] in ("closure", "fndef", "fnptr"):
            return a
    if fn.body:
        return fn.body["locals"][idx + 1]
    raise Unsupported("closure type")


RANGE = re.compile(r"Range")
# text built up in memory is a list of output items, like what is sent to a formatter
STR = re.compile(r"string::String\b|^(std|alloc)::fmt::format|slice::<impl \[(\w|::)+\]>::(join|concat)\b|str::<impl str>::to_"
                 r"|Vec<(\w|::)*String>")

VEC = re.compile(r"^<?(std|alloc)::vec::(Vec\b|from_elem)|^<&'?\w* ?(mut )?(std|alloc)::vec::Vec\b|slice::<impl \[T\]>::into_vec$|"
                 r"box_assume_init_into_vec_unsafe$")


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def call(self, I, st, fn, args):
        if fn.local:
            return NotImplemented
        h = self.cache.get(fn.id)
        if h is None:
            h = self.find(fn)
            self.cache[fn.id] = h
        if h is NotImplemented:
            return h
        try:
            return h(I, st, fn, args)
        except NotModelled as e:
            if e.fn is fn and fn.body is not None:
                return NotImplemented
            raise

    def find(self, fn):
        m = fn.method
        tr = (fn.trait or fn.trait_default or "").replace("core::", "std::")
        if fn.intrinsic:
            h = getattr(self, "i_" + fn.intrinsic, None)
            if h:
                return h
        if tr.endswith(("iter::Iterator", "DoubleEndedIterator", "ExactSizeIterator")):
            h = getattr(self, "it_" + (m or ""), None)
            if h:
                return h
        if tr.endswith("IntoIterator") and m == "into_iter":
            return self.vec_into_iter if VEC.search(fn.path) else self.into_iter
        if VEC.search(fn.path) and "String" not in (fn.name or ""):
            h = getattr(self, "vec_" + (m or fn.path.split("::")[-1]), None)
            if h:
                return h
        if STR.search(fn.path) or STR.search(fn.name or ""):
            h = getattr(self, "str_" + (m or fn.path.split("::")[-1]), None)
            if h:
                return h
        if tr.endswith("clone::Clone") and m == "clone":
            return self.clone
        if tr.endswith("cmp::PartialEq") and m in ("eq", "ne"):
            return self.peq
        if tr.endswith(("ops::Index", "ops::IndexMut")) or fn.path.endswith("SliceIndex>::index"):
            return self.index
        if tr.endswith("convert::AsRef") or tr.endswith("convert::AsMut") or tr.endswith("borrow::Borrow") or \
                tr.endswith("borrow::BorrowMut"):
            return self.as_slice
        if tr.endswith(("ops::Deref", "ops::DerefMut")):
            return NotImplemented
        if tr.endswith("cmp::Ord") and m in ("min", "max", "clamp", "cmp"):
            return getattr(self, "ord_" + m)
        if tr.endswith("default::Default") and m == "default":
            return self.default
        if tr.endswith(("FnOnce", "FnMut", "ops::Fn")) and m in ("call", "call_mut", "call_once"):
            return self.fn_call
        p = fn.path.replace("core::", "std::")
        for rx, h in self.TABLE:
            if re.search(rx, p):
                return getattr(self, h)
        if "panicking" in p or "panic" in (m or "") or p.startswith("std::rt"):
            return self.panic
        if p.endswith(("unwrap_failed", "expect_failed", "slice_index_fail")) or "len_mismatch_fail" in p:
            return self.panic
        if fn.krate.startswith("rand"):
            return self.rand(fn)
        return NotImplemented

    TABLE = [
        (r"^std::mem::swap$", "swap"),
        (r"^std::mem::replace$", "replace"),
        (r"^std::mem::take$", "take"),
        (r"^std::mem::drop$", "unit"),
        (r"^std::mem::(size_of|align_of)", "opaque_public"),
        (r"^std::hint::black_box$", "ident"),
        (r"::precondition_check$", "unit"),
        (r"intrinsics::cold_path$", "unit"),
        (r"slice::<impl \[T\]>::iter$", "s_iter"),
        (r"slice::<impl \[T\]>::iter_mut$", "s_iter"),
        (r"slice::<impl \[T\]>::len$", "s_len"),
        (r"slice::<impl \[T\]>::to_vec$", "s_to_vec"),
        (r"iter::(sources::)?(repeat::)?repeat$", "it_repeat"),
        (r"iter::(sources::)?(once::)?once$", "it_once"),
        (r"iter::(sources::)?(empty::)?empty$", "it_empty"),
        (r"slice::<impl \[T\]>::is_empty$", "s_empty"),
        (r"slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$", "s_copy"),
        (r"slice::<impl \[T\]>::fill$", "s_fill"),
        (r"slice::<impl \[T\]>::swap$", "s_swap"),
        (r"slice::<impl \[T\]>::reverse$", "s_reverse"),
        (r"slice::<impl \[T\]>::(chunks|chunks_exact|chunks_mut|chunks_exact_mut)$", "s_chunks"),
        (r"slice::<impl \[T\]>::windows$", "s_windows"),
        (r"slice::<impl \[T\]>::(split_at|split_at_mut)$", "s_split"),
        (r"slice::<impl \[T\]>::(get|get_mut)$", "s_get"),
        (r"slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$", "index"),
        (r"slice::<impl \[T\]>::(first|first_mut|last|last_mut)$", "s_first"),
        (r"slice::<impl \[T\]>::(first_chunk|last_chunk)$", "s_first_chunk"),
        (r"array::<impl \[T; N\]>::(as_slice|as_mut_slice)$", "as_slice"),
        (r"array::<impl \[T; N\]>::map$", "a_map"),
        (r"^std::array::from_fn$", "a_from_fn"),
        (r"num::<impl [iu]\w+>::wrapping_(add|sub|mul|neg|shl|shr)$", "n_wrapping"),
        (r"num::<impl [iu]\w+>::(overflowing|checked|saturating)_(add|sub|mul)$", "n_other"),
        (r"num::<impl [iu]\w+>::to_(le|be|ne)_bytes$", "n_to_bytes"),
        (r"num::<impl [iu]\w+>::from_(le|be|ne)_bytes$", "n_from_bytes"),
        (r"num::<impl [iu]\w+>::(rotate_left|rotate_right)$", "n_rotate"),
        (r"num::<impl [iu]\w+>::(abs|signum|unsigned_abs|wrapping_abs|is_negative|is_positive)$", "n_abs"),
        (r"num::<impl [iu]\w+>::(leading_zeros|trailing_zeros|count_ones|count_zeros)$", "n_bits"),
        (r"num::<impl [iu]\w+>::pow$", "n_pow"),
        (r"num::<impl [iu]\w+>::(div|rem)_euclid$", "n_euclid"),
        (r"fmt::Arguments::<.*>::new$", "f_args"),
        (r"fmt::Arguments::<.*>::from_str(_nonconst)?$", "f_args_str"),
        (r"fmt::rt::Argument::<.*>::new_", "f_argument"),
        (r"str::(converts::)?from_utf8$", "f_utf8"),
        (r"str::(converts::)?from_utf8_unchecked$", "f_utf8u"),
        (r"fmt::Formatter::<.*>::write_fmt$", "f_write"),
        (r"fmt::Formatter::<.*>::write_str$", "f_write_str"),
        (r"fmt::Write.*::write_str$", "f_write_str"),
        (r"fmt::Write.*::write_char$", "f_write_char"),
        (r"fmt::Write.*::write_fmt$", "f_write"),
        (r"fmt::Formatter::<.*>::(debug_\w+|alternate|width|precision|fill|sign_\w+|pad\w*)", "f_other"),
        (r"fmt::(LowerHex|UpperHex|Display|Debug)( for \w+)?>::fmt$", "f_prim"),
        (r"fmt::num::.*fmt$", "f_prim"),
    ]

    # ---- basics
    def unit(self, I, st, fn, a):
        return UNIT

    def ident(self, I, st, fn, a):
        return a[0]

    def panic(self, I, st, fn, a):
        I.event("panic", fn.path, args=a)
        raise Diverge()

    def deref(self, I, st, r):
        if type(r) is not Ref:
            raise Unsupported("reference expected, got %r" % (r,))
        return I.read_at(st, r.cell, r.path, None if r.win is None else r.win)

    def swap(self, I, st, fn, a):
        x, y = self.deref(I, st, a[0]), self.deref(I, st, a[1])
        I.write_at(st, a[0].cell, a[0].path, y)
        I.write_at(st, a[1].cell, a[1].path, x)
        return UNIT

    def replace(self, I, st, fn, a):
        x = self.deref(I, st, a[0])
        I.write_at(st, a[0].cell, a[0].path, a[1])
        return x

    def take(self, I, st, fn, a):
        raise Unsupported("mem::take")

    def default(self, I, st, fn, a):
        it = I.intty(fn.body["locals"][0]) if fn.body else None
        if it:
            return I.iconst(0, *it)
        return NotImplemented if False else I.inline(st, fn, a)

    def opaque_public(self, I, st, fn, a):
        t = None
        for k, x in fn.targs:
            if k == "t":
                t = I.ty(x)
        if t and "size" in t and "size_of" in fn.path:
            return I.usize(t["size"])
        raise Unsupported(fn.path)

    def clone(self, I, st, fn, a):
        r = a[0]
        v = self.deref(I, st, r)
        if type(v) in (IntV, FEV, PTV) or self.plain(v):
            return v
        return I.inline(st, fn, a)

    def plain(self, v):
        if type(v) in (IntV, FEV, PTV, It, Ref, FnV):
            return True
        if type(v) is Agg:
            return all(self.plain(x) for x in v.f)
        if type(v) is EnumV:
            return all(self.plain(x) for al in v.alts for x in al[2])
        return False

    def fn_call(self, I, st, fn, a):
        f = a[0]
        tup = a[1].f if type(a[1]) is Agg else (a[1],)
        if type(f) is FnV:
            return I.call_value(st, f, list(tup))
        tid = None
        for k, x in fn.targs:
            if k == "t":
                tid = x
                break
        if type(f) is Ref and tid is not None and not f.path:
            return call_closure(I, st, f.cell, tid, tup)
        if tid is not None:
            c = I.newcell(st, f)
            return call_closure(I, st, c, tid, tup)
        return NotImplemented if fn.body is None else I.inline(st, fn, a)

    # ---- comparisons
    def leaves(self, I, st, v):
        if type(v) is Ref:
            if v.win is not None:
                if not v.win[1].known():
                    raise Unsupported("comparison of symbolic slices")
                out = []
                for i in range(v.win[1].lo):
                    out += self.leaves(I, st, I.read_at(st, v.cell, v.path + (v.win[0] + i,)))
                return out
            return self.leaves(I, st, I.read_at(st, v.cell, v.path))
        if type(v) is IntV:
            return [v]
        if type(v) is FEV:
            return list(v.fi.limbs_in(I.materialise(v)))
        if type(v) is Agg:
            out = []
            for x in v.f:
                out += self.leaves(I, st, x)
            return out
        raise Unsupported("comparison of %r" % (v,))

    def peq(self, I, st, fn, a):
        if fn.body is not None and not self.seqtype(I, fn):
            if type(self.deref(I, st, a[0])) is EnumV:
                return I.inline(st, fn, a)
        x, y = self.leaves(I, st, a[0]), self.leaves(I, st, a[1])
        if len(x) != len(y):
            return I.iconst(int(fn.method == "ne"), 1, False)
        if len(x) > 1 and any(I.secret(v.p) for v in x + y):
            I.event("secret-branch", "library comparison of %d elements stops at the first difference" % len(x))
        r = const(1)
        for p, q in zip(x, y):
            r = I.dom.mul(r, I.dom.eq0(p.p - q.p, p.lo - q.hi, p.hi - q.lo))
        return I.boolv(r if fn.method == "eq" else const(1) - r)

    def seqtype(self, I, fn):
        return True

    def ord_cmp(self, I, st, fn, a):
        raise Unsupported("three-way comparison")

    def ord_min(self, I, st, fn, a):
        return self.minmax(I, fn, a, "min")

    def ord_max(self, I, st, fn, a):
        return self.minmax(I, fn, a, "max")

    def ord_clamp(self, I, st, fn, a):
        return self.minmax(I, fn, [self.minmax(I, fn, a[:2], "max"), a[2]], "min")

    def minmax(self, I, fn, a, k):
        x, y = a
        if type(x) is not IntV:
            raise Unsupported(k)
        lt = I.dom.lt0(x.p - y.p, x.lo - y.hi, x.hi - y.lo)
        if not lt.is_const() and I.secret(lt):
            I.event("secret-branch", "std::cmp::" + k)
        s, o = (x, y) if k == "min" else (y, x)
        if lt.is_const():
            return s if lt.const() else o
        return I.merge_vals([lt, const(1) - lt], [s, o])

    # ---- slices
    def slice_of(self, I, st, r):
        """Ref -> (cell, path, off, lenIntV)"""
        if type(r) is not Ref:
            raise Unsupported("slice %r" % (r,))
        if r.win is not None:
            return r.cell, r.path, r.win[0], r.win[1]
        v = I.read_at(st, r.cell, r.path)
        if type(v) is Ref:
            return self.slice_of(I, st, v)
        if type(v) is Agg:
            return r.cell, r.path, 0, I.usize(len(v.f))
        if type(v) is SymArr:
            return r.cell, r.path, 0, v.length
        raise Unsupported("slice of %r" % (v,))

    def refs(self, I, st, r):
        c, p, o, n = self.slice_of(I, st, r)
        if not n.known():
            raise Unsupported("iteration over a buffer of symbolic length")
        return [Ref(c, p + (o + i,)) for i in range(n.lo)]

    def open_refs(self, I, st, r):
        c, p, o, n = self.slice_of(I, st, r)
        return It("list" if n.known() else "open", tuple(Ref(c, p + (o + i,)) for i in range(n.lo)))

    def s_iter(self, I, st, fn, a):
        return self.open_refs(I, st, a[0])

    def s_len(self, I, st, fn, a):
        return self.slice_of(I, st, a[0])[3]

    def s_empty(self, I, st, fn, a):
        n = self.slice_of(I, st, a[0])[3]
        return I.boolv(I.dom.eq0(n.p, n.lo, n.hi))

    def as_slice(self, I, st, fn, a):
        r = a[0]
        if type(r) is Ref and r.win is None:
            v = I.read_at(st, r.cell, r.path)
            if type(v) is Agg and fn.body and I.ty(I.ty(fn.body["locals"][0]).get("to", 0))["k"] == "slice":
                return Ref(r.cell, r.path, (0, I.usize(len(v.f))))
        return r

    def s_copy(self, I, st, fn, a):
        d = self.slice_of(I, st, a[0])
        s = self.slice_of(I, st, a[1])
        if d[3].p != s[3].p:
            if d[3].known() and s[3].known():
                I.event("panic", "copy_from_slice with different lengths")
                raise Diverge()
            I.event("panic", "copy_from_slice with lengths that may differ")
        if not s[3].known():
            raise Unsupported("copy of a symbolic length")
        vals = [I.read_at(st, s[0], s[1] + (s[2] + i,)) for i in range(s[3].lo)]
        for i, v in enumerate(vals):
            I.write_at(st, d[0], d[1] + (d[2] + i,), v)
        return UNIT

    def s_fill(self, I, st, fn, a):
        for r in self.refs(I, st, a[0]):
            I.write_at(st, r.cell, r.path, a[1])
        return UNIT

    def s_swap(self, I, st, fn, a):
        rs = self.refs(I, st, a[0])
        i, j = a[1], a[2]
        if not (i.known() and j.known()):
            raise Unsupported("swap at unknown positions")
        if i.lo >= len(rs) or j.lo >= len(rs):
            I.event("panic", "index out of bounds")
            raise Diverge()
        x, y = I.read_at(st, rs[i.lo].cell, rs[i.lo].path), I.read_at(st, rs[j.lo].cell, rs[j.lo].path)
        I.write_at(st, rs[i.lo].cell, rs[i.lo].path, y)
        I.write_at(st, rs[j.lo].cell, rs[j.lo].path, x)
        return UNIT

    def s_reverse(self, I, st, fn, a):
        rs = self.refs(I, st, a[0])
        vals = [I.read_at(st, r.cell, r.path) for r in rs]
        for r, v in zip(rs, reversed(vals)):
            I.write_at(st, r.cell, r.path, v)
        return UNIT

    def s_chunks(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if not a[1].known() or a[1].lo == 0:
            raise Unsupported("chunks")
        k = a[1].lo
        if not n.known():
            return It("open", tuple(Ref(c, p, (o + i, I.usize(k))) for i in range(0, n.lo - k + 1, k)))
        out = []
        i = 0
        while i < n.lo:
            m = min(k, n.lo - i)
            if m < k and "exact" in fn.method:
                break
            out.append(Ref(c, p, (o + i, I.usize(m))))
            i += k
        return It("list", tuple(out))

    def s_windows(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if not n.known() or not a[1].known():
            raise Unsupported("windows")
        return It("list", tuple(Ref(c, p, (o + i, a[1])) for i in range(n.lo - a[1].lo + 1)))

    def s_split(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if not a[1].known():
            raise Unsupported("split_at")
        k = a[1].lo
        if k > n.lo:
            I.event("panic", "split_at out of bounds")
            if k > n.hi:
                raise Diverge()
        rest = I.mk(n.p - const(k), I.prog.ptr, False)
        return Agg((Ref(c, p, (o, I.usize(k))), Ref(c, p, (o + k, rest))))

    def opt(self, I, fn, v):
        tid = fn.body["locals"][0] if fn.body else None
        if tid is None:
            raise Unsupported("option type")
        if v is None:
            return EnumV(((const(1), 0, ()),), tid)
        return EnumV(((const(1), 1, (v,)),), tid)

    def s_get(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        i = a[1]
        if type(i) is IntV and i.known():
            if i.lo < n.lo:
                return self.opt(I, fn, Ref(c, p + (o + i.lo,)))
            if i.lo >= n.hi:
                return self.opt(I, fn, None)
        raise Unsupported("slice get")

    def s_first(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if n.lo == 0:
            raise Unsupported("first of possibly empty slice")
        if "first" in fn.method:
            return self.opt(I, fn, Ref(c, p + (o,)))
        if not n.known():
            raise Unsupported("last of symbolic slice")
        return self.opt(I, fn, Ref(c, p + (o + n.lo - 1,)))

    def s_first_chunk(self, I, st, fn, a):
        # Option<&[T; N]>: the array is shared and read-only while the reference lives, so a copy does
        k = None
        for kind, x in fn.targs:
            if kind == "c":
                k = x
        c, p, o, n = self.slice_of(I, st, a[0])
        if not isinstance(k, int) or n.lo < k and not n.known() or not n.known() and "last" in fn.method:
            raise Unsupported("first_chunk")
        if n.lo < k:
            return self.opt(I, fn, None)
        at = o if "first" in fn.method else o + n.lo - k
        arr = Agg(tuple(I.read_at(st, c, p + (at + i,)) for i in range(k)))
        return self.opt(I, fn, Ref(I.newcell(st, arr), ()))

    def n_euclid(self, I, st, fn, a):
        d = a[1]
        if not d.known() or d.lo <= 0 or d.lo & (d.lo - 1):
            return NotImplemented if fn.body is None else I.inline(st, fn, a)
        k = d.lo.bit_length() - 1
        q = I.shift("Shr", a[0], I.iconst(k))
        if "div" in fn.method:
            return q
        return I.wrap(a[0].p - q.p.scale(1 << k), a[0].bits, a[0].signed, 0, d.lo - 1)

    def index(self, I, st, fn, a):
        # Index::index(&self, idx) or SliceIndex::index(idx, &slice)
        r, ix = (a[0], a[1])
        if type(r) is not Ref:
            r, ix = a[1], a[0]
        c, p, o, n = self.slice_of(I, st, r)
        name = fn.name
        if type(ix) is IntV:
            if I.secret(ix.p):
                I.event("secret-index", I.dom.show(ix.p))
            if ix.hi >= n.lo:
                I.event("assert", "index in [%d, %d] of a slice of length >= %d" % (ix.lo, ix.hi, n.lo),
                        akind="BoundsCheck")
                if ix.lo >= n.hi:
                    raise Diverge()
            if not ix.known():
                return Ref(c, p + (("sel", ix, o, n),))
            return Ref(c, p + (o + ix.lo,))
        rt = re.search(r"Range(From|ToInclusive|To|Full|Inclusive)?\b", name)
        kind = rt.group(1) if rt else None
        f = [x for x in ix.f] if type(ix) is Agg else []
        if rt is None:
            raise Unsupported("index type in " + name)
        lo, hi = I.usize(0), n
        if kind is None:
            lo, hi = f[0], f[1]
        elif kind == "From":
            lo = f[0]
        elif kind == "To":
            hi = f[0]
        elif kind == "ToInclusive":
            hi = I.usize(f[0].lo + 1) if f[0].known() else None
        elif kind == "Inclusive":
            lo, hi = f[0], I.usize(f[1].lo + 1) if f[1].known() else None
        if hi is None or not lo.known():
            raise Unsupported("range index")
        d = n.p - hi.p
        l, h = I.dom.iv(d)
        if l < 0:
            I.event("assert", "range end may exceed the slice length", akind="BoundsCheck")
            if h < 0:
                raise Diverge()
        if lo.lo > hi.lo:
            I.event("assert", "range start may exceed its end", akind="BoundsCheck")
            if lo.lo > hi.hi:
                raise Diverge()
        I.count("assert:BoundsCheck")
        ln = I.mk(hi.p - lo.p, I.prog.ptr, False)
        return Ref(c, p, (o + lo.lo, ln))

    def a_map(self, I, st, fn, a):
        tid = clos_tid(I, fn, a[1], 1)
        c = I.newcell(st, a[1])
        return Agg(tuple(call_closure(I, st, c, tid, [x]) for x in a[0].f))

    def a_from_fn(self, I, st, fn, a):
        t = I.ty(fn.body["locals"][0]) if fn.body else None
        if not t or t["k"] != "array":
            raise Unsupported("array::from_fn")
        tid = clos_tid(I, fn, a[0], 0)
        c = I.newcell(st, a[0])
        return Agg(tuple(call_closure(I, st, c, tid, [I.usize(i)]) for i in range(t["len"])))

    # ---- integers
    def n_wrapping(self, I, st, fn, a):
        op = fn.method.split("_")[1]
        x = a[0]
        if op == "neg":
            return I.unop(st, "Neg", x)
        if op in ("shl", "shr"):
            return I.shift(op.capitalize(), x, a[1])
        return I.binop(op.capitalize(), x, a[1])

    def n_other(self, I, st, fn, a):
        kind, op = fn.method.split("_")
        r = I.cbinop(op.capitalize(), a[0], a[1])
        v, f = r.f
        if kind == "overflowing":
            if f.known() and f.lo == 0:
                return r
            w = I.binop(op.capitalize(), a[0], a[1])
            return Agg((w, f))
        if f.known() and f.lo == 0:
            return v if kind == "saturating" else self.opt(I, fn, v)
        raise Unsupported(fn.method + " that may overflow")

    @staticmethod
    def big(I, fn):
        return "_be_" in fn.method or "_ne_" in fn.method and I.prog.endian == "big"

    def n_to_bytes(self, I, st, fn, a):
        v = a[0]
        n = v.bits // 8
        out = []
        for i in range(n):
            p, lo, hi = I.and_const(I.shift("Shr", v, I.iconst(8 * i)), 255)
            out.append(I.mk(p, 8, False, lo, hi))
        if self.big(I, fn):
            out.reverse()
        return Agg(tuple(out))

    def n_from_bytes(self, I, st, fn, a):
        bs = list(a[0].f)
        if self.big(I, fn):
            bs.reverse()
        p = ZERO
        lo = hi = 0
        for i, x in enumerate(bs):
            p = p + x.p.scale(1 << (8 * i))
            lo += x.lo << (8 * i)
            hi += x.hi << (8 * i)
        m = re.search(r"impl ([iu])(\w+)>", fn.path)
        bits = 8 * len(bs)
        return I.wrap(p, bits, m.group(1) == "i", lo, hi)

    def n_rotate(self, I, st, fn, a):
        v, s = a
        if not s.known():
            raise Unsupported("rotate")
        if v.signed:
            u = self.n_rotate(I, st, fn, [I.wrap(v.p, v.bits, False, v.lo, v.hi), s])
            r = I.wrap(u.p, v.bits, True, u.lo, u.hi)
            if u.p in I.dom.lowreg and not r.known():
                I.dom.lowreg[r.p] = I.dom.lowreg[u.p]
            return r
        k = s.lo % v.bits
        if "right" in fn.method:
            k = (v.bits - k) % v.bits
        if k == 0:
            return v
        hi = I.dom.floor(v.p, v.bits - k, v.lo, v.hi)
        r = v.p.scale(1 << k) - hi.scale(1 << v.bits) + hi
        if hi.d:
            I.dom.lowreg[r] = (hi, k)
        return I.mk(r, v.bits, False, *ty_range(v.bits, False))

    def n_abs(self, I, st, fn, a):
        v = a[0]
        neg = I.dom.lt0(v.p, v.lo, v.hi)
        if fn.method == "is_negative":
            return I.boolv(neg)
        if fn.method == "is_positive":
            return I.boolv(I.dom.lt0(-v.p, -v.hi, -v.lo))
        if fn.method == "signum":
            pos = I.dom.lt0(-v.p, -v.hi, -v.lo)
            return I.mk(pos - neg, v.bits, v.signed, -1, 1)
        if v.lo <= ty_range(v.bits, True)[0] and fn.method == "abs":
            I.event("assert", "abs of the minimum value", akind="Overflow")
        m = max(abs(v.lo), abs(v.hi))
        return I.mk(v.p - I.dom.mul(neg, v.p).scale(2), v.bits, fn.method != "unsigned_abs", 0, m)

    def n_bits(self, I, st, fn, a):
        v = a[0]
        if v.known():
            x = v.lo & ((1 << v.bits) - 1)
            r = {"leading_zeros": v.bits - x.bit_length(), "count_ones": bin(x).count("1"),
                 "count_zeros": v.bits - bin(x).count("1"),
                 "trailing_zeros": v.bits if x == 0 else (x & -x).bit_length() - 1}[fn.method]
            return I.iconst(r, 32, False)
        i = I.dom.atom(fn.method, (v.p,), 0, v.bits)
        return I.mk(I.dom.var(i), 32, False)

    def n_pow(self, I, st, fn, a):
        if not a[1].known():
            raise Unsupported("pow")
        r = I.iconst(1, a[0].bits, a[0].signed)
        for _ in range(a[1].lo):
            x = I.cbinop("Mul", r, a[0])
            if not (x.f[1].known() and x.f[1].lo == 0):
                I.event("assert", "pow may overflow", akind="Overflow")
            r = x.f[0]
        return r

    def i_wrapping_add(self, I, st, fn, a):
        return I.binop("Add", a[0], a[1])

    def i_wrapping_sub(self, I, st, fn, a):
        return I.binop("Sub", a[0], a[1])

    def i_wrapping_mul(self, I, st, fn, a):
        return I.binop("Mul", a[0], a[1])

    i_unchecked_add, i_unchecked_sub, i_unchecked_mul = i_wrapping_add, i_wrapping_sub, i_wrapping_mul

    def i_unchecked_shl(self, I, st, fn, a):
        return I.shift("Shl", a[0], a[1])

    def i_unchecked_shr(self, I, st, fn, a):
        return I.shift("Shr", a[0], a[1])

    def i_cold_path(self, I, st, fn, a):
        return UNIT

    i_assume = i_cold_path

    def i_black_box(self, I, st, fn, a):
        return a[0]

    def i_likely(self, I, st, fn, a):
        return a[0]

    i_unlikely = i_likely

    def i_transmute(self, I, st, fn, a):
        return I.transmute(st, a[0], fn.body["locals"][0] if fn.body else fn.targs[-1][1])

    # ---- iterators
    def as_it(self, I, st, fn, v, tid=None):
        if type(v) is It:
            return v
        name = ""
        if fn.body:
            t = I.ty(fn.body["locals"][1])
            while t["k"] == "ref":
                t = I.ty(t["to"])
            name = t.get("str", "")
        if not name:
            name = fn.name
        if type(v) is Agg and "RangeInclusive" in name and len(v.f) == 3:
            a, b, ex = v.f
            if all(type(x) is IntV and x.known() for x in (a, b, ex)):
                return It("list", () if ex.lo else tuple(I.iconst(i, a.bits, a.signed) for i in range(a.lo, b.lo + 1)))
        if type(v) is Agg and "RangeFrom" not in name and "Range" in name and len(v.f) == 2:
            a, b = v.f
            if type(a) is IntV and a.known() and type(b) is IntV and b.known():
                return It("list", tuple(I.iconst(i, a.bits, a.signed) for i in range(a.lo, b.lo)))
            if type(a) is IntV and any(I.secret(x.p) for x in v.f):
                I.event("secret-branch", "loop bound depends on secret data")
            raise Unsupported("loop over a range with unknown bounds")
        if type(v) is Agg and "RangeFrom" in name and len(v.f) == 1 and v.f[0].known():
            a = v.f[0]
            return It("list", tuple(I.iconst(i, a.bits, a.signed) for i in range(a.lo, a.lo + 4096)))
        return None

    def into_iter(self, I, st, fn, a):
        v = a[0]
        if type(v) is It:
            return v
        if type(v) is Ref:
            t = st.cells.get(v.cell)
            x = I.read_at(st, v.cell, v.path, None) if v.win is None else None
            if v.win is not None or type(x) in (Agg, SymArr):
                if type(x) is Agg and fn.body:
                    tt = I.ty(fn.body["locals"][1])
                    tt = I.ty(tt["to"]) if tt["k"] == "ref" else tt
                    if tt["k"] not in ("array", "slice"):
                        return v         # &mut I where I: Iterator
                return self.open_refs(I, st, v)
            if type(x) is It:
                return v
        if type(v) is Agg:
            t = I.ty(fn.body["locals"][1]) if fn.body else {}
            if t.get("k") == "array":
                return It("list", v.f)
            it = self.as_it(I, st, fn, v)
            if it is not None:
                return it
        if fn.body is None:
            raise Unsupported("into_iter of %r" % (v,))
        return I.inline(st, fn, a)

    def it_next(self, I, st, fn, a):
        r = a[0]
        v = self.deref(I, st, r)
        if type(v) is Ref:
            return self.it_next(I, st, fn, [v])
        if type(v) is not It:
            return I.inline(st, fn, a)
        x, n = it_next(I, st, v)
        I.write_at(st, r.cell, r.path, n)
        I.count("iter-next")
        return self.opt(I, fn, x)

    def it_next_back(self, I, st, fn, a):
        r = a[0]
        v = self.deref(I, st, r)
        it = v if type(v) is It else self.as_it(I, st, fn, v)
        if it is None:
            raise Unsupported("next_back")
        n = it_len(it)
        if n == 0:
            return self.opt(I, fn, None)
        x, _ = it_next(I, st, it_slice(it, n - 1, n))
        I.write_at(st, r.cell, r.path, it_slice(it, 0, n - 1))
        return self.opt(I, fn, x)

    def need(self, I, st, fn, v):
        if type(v) is Ref:
            v = self.deref(I, st, v)
        it = self.as_it(I, st, fn, v)
        if it is None:
            raise NotModelled(fn, "iterator %r in %s" % (v, fn.name))
        return it

    def it_rev(self, I, st, fn, a):
        return it_rev(self.need(I, st, fn, a[0]))

    def it_enumerate(self, I, st, fn, a):
        return It("enum", self.need(I, st, fn, a[0]), 0)

    def it_zip(self, I, st, fn, a):
        b = a[1]
        if type(b) is Ref:
            b = self.open_refs(I, st, b)
        elif type(b) is Agg:
            tid = fn.body["locals"][2] if fn.body else None
            t = I.ty(tid) if tid is not None else {}
            if t.get("k") == "array":
                b = It("list", b.f)
            elif "Range" in t.get("str", ""):
                f = b.f
                if len(f) == 1:
                    b = It("list", tuple(I.iconst(f[0].lo + i, f[0].bits, f[0].signed) for i in range(4096)))
                elif f[0].known() and f[1].known():
                    hi = f[1].lo + (1 if "Inclusive" in t["str"] else 0)
                    b = It("list", tuple(I.iconst(i, f[0].bits, f[0].signed) for i in range(f[0].lo, hi)))
        if type(b) is not It:
            raise Unsupported("zip with %r" % (b,))
        return it_zip(self.need(I, st, fn, a[0]), b)

    def it_map(self, I, st, fn, a):
        return It("map", self.need(I, st, fn, a[0]), I.newcell(st, a[1]), clos_tid(I, fn, a[1], 1))

    def it_filter(self, I, st, fn, a):
        return It("filter", self.need(I, st, fn, a[0]), I.newcell(st, a[1]), clos_tid(I, fn, a[1], 1))

    def it_cloned(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        if it.k in ("list", "open"):
            return It("deref", it)
        raise Unsupported("cloned")

    it_copied = it_cloned

    def it_take(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        if not a[1].known():
            raise Unsupported("take of unknown count")
        n, exact = it_lo(it)
        return it_slice(it, 0, min(a[1].lo, n) if exact else a[1].lo)

    def it_skip(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        if not a[1].known():
            raise Unsupported("skip of unknown count")
        n, exact = it_lo(it)
        if not exact and a[1].lo > n:
            raise Unsupported("skip past the guaranteed size of a buffer")
        return it_slice(it, min(a[1].lo, n), n if exact else None)

    def it_step_by(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        if it.k == "list" and a[1].known():
            return It("list", it.a[::a[1].lo])
        if it.k == "deref" and it.a.k == "list" and a[1].known():
            return It("deref", It("list", it.a.a[::a[1].lo]))
        raise Unsupported("step_by")

    def it_chain(self, I, st, fn, a):
        x, y = self.need(I, st, fn, a[0]), a[1]
        if type(y) is Agg:
            tid = fn.body["locals"][2]
            if "Range" in I.ty(tid).get("str", "") and len(y.f) == 2:
                y = It("list", tuple(I.iconst(i, y.f[0].bits, y.f[0].signed) for i in range(y.f[0].lo, y.f[1].lo)))
        if type(y) is It and x.k == "list" and y.k == "list":
            return It("list", x.a + y.a)
        if type(y) is It and x.k == "deref" and y.k == "deref" and x.a.k == "list" and y.a.k == "list":
            return It("deref", It("list", x.a.a + y.a.a))
        if type(y) is Agg and fn.body and I.ty(fn.body["locals"][2]).get("k") == "array":
            y = It("list", y.f)
        if type(y) is Ref:
            y = self.open_refs(I, st, y)
        if type(y) is It:
            return It("chain", x, y)
        raise Unsupported("chain")

    def it_repeat(self, I, st, fn, a):
        return It("repeat", a[0])

    def it_once(self, I, st, fn, a):
        return It("list", (a[0],))

    def it_empty(self, I, st, fn, a):
        return It("list", ())

    def it_flat_map(self, I, st, fn, a, whole=False):
        it = self.need(I, st, fn, a[0])
        out = []
        if not whole:
            tid = clos_tid(I, fn, a[1], 1)
            c = I.newcell(st, a[1])
        kinds = [I.ty(x) for k, x in fn.targs if k == "t"]
        for x in self.drain(I, st, it):
            if not whole:
                x = call_closure(I, st, c, tid, [x])
            if type(x) is It:
                out += self.drain(I, st, x)
            elif type(x) is Ref:
                out += self.drain(I, st, self.open_refs(I, st, x))
            elif type(x) is Agg and any(t.get("k") == "array" or re.match(r"(std|alloc)::vec::Vec<", t.get("str", ""))
                                        for t in kinds) and not any("Range" in t.get("str", "") for t in kinds[1:2]):
                out += x.f
            else:
                raise Unsupported("flattening %r" % (x,))
        return It("list", tuple(out))

    def s_to_vec(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if not n.known():
            raise Unsupported("copy of unknown length")
        return Agg(tuple(I.read_at(st, c, p + (o + i,)) for i in range(n.lo)))


    def it_by_ref(self, I, st, fn, a):
        return a[0]

    def it_len(self, I, st, fn, a):
        return I.usize(it_len(self.need(I, st, fn, a[0])))

    def it_count(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        if it.k != "filter":
            return I.usize(it_len(it))
        n = I.usize(0)
        for x in self.drain(I, st, it.a):
            keep = call_closure(I, st, it.b, it.c, [Ref(I.newcell(st, x), ())])
            n = I.cbinop("Add", n, I.wrap(keep.p, I.prog.ptr, False, keep.lo, keep.hi)).f[0]
        return n

    def drain(self, I, st, it):
        if it.k == "filter":
            for x in self.drain(I, st, it.a):
                keep = call_closure(I, st, it.b, it.c, [Ref(I.newcell(st, x), ())])
                if not keep.known():
                    raise Unsupported("filter on an unknown condition")
                if keep.lo:
                    yield x
            return
        while True:
            x, it = it_next(I, st, it)
            if x is None:
                return
            yield x

    def it_for_each(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        tid = clos_tid(I, fn, a[1], 1)
        c = I.newcell(st, a[1])
        for x in self.drain(I, st, it):
            call_closure(I, st, c, tid, [x])
        return UNIT

    def it_try_fold(self, I, st, fn, a, acc=True):
        it = self.need(I, st, fn, a[0])
        i = 2 if acc else 1
        tid = clos_tid(I, fn, a[i], i)
        c = I.newcell(st, a[i])
        v = a[1] if acc else UNIT
        r = None
        while True:
            x, it = it_next(I, st, it)
            if x is None:
                break
            r = call_closure(I, st, c, tid, [v, x] if acc else [x])
            if type(r) is not EnumV or len(r.alts) != 1:
                raise Unsupported("early exit of %s on an unknown condition" % fn.method)
            if r.alts[0][1] != self.go_on(I, r):
                break
            v = r.alts[0][2][0]
        if type(a[0]) is Ref:
            I.write_at(st, a[0].cell, a[0].path, it)
        if r is None:
            tid = fn.body["locals"][0]
            return EnumV(((const(1), self.go_on(I, EnumV((), tid)), (v,)),), tid)
        return r

    def go_on(self, I, r):
        s = I.ty(r.tid).get("str", "")
        return 1 if "option::Option" in s else 0

    def it_try_for_each(self, I, st, fn, a):
        return self.it_try_fold(I, st, fn, a, acc=False)

    def it_collect(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        tid = fn.body["locals"][0] if fn.body else None
        if tid is not None:
            r = self.it_collect_text(I, st, fn, it, tid)
            if r is not None:
                return r
        if tid is not None and re.match(r"(std|alloc)::vec::Vec<", I.ty(tid).get("str", "")):
            return Agg(tuple(self.drain(I, st, it)))
        if tid is None or not I.ty(tid).get("str", "").replace("core::", "std::").startswith("std::result::Result<(), "):
            raise NotModelled(fn, "collect")
        for x in self.drain(I, st, it):
            if type(x) is not EnumV or len(x.alts) != 1:
                raise Unsupported("early exit of collect on an unknown condition")
            if x.alts[0][1] == 1:
                return EnumV(x.alts, tid)
        return EnumV(((const(1), 0, (UNIT,)),), tid)

    def it_fold(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        tid = clos_tid(I, fn, a[2], 2)
        c = I.newcell(st, a[2])
        acc = a[1]
        for x in self.drain(I, st, it):
            acc = call_closure(I, st, c, tid, [acc, x])
        return acc

    def it_sum(self, I, st, fn, a):
        it = self.need(I, st, fn, a[0])
        acc = None
        for x in self.drain(I, st, it):
            if type(x) is Ref:
                x = self.deref(I, st, x)
            if type(x) is not IntV:
                raise Unsupported("sum of non-integers")
            if acc is None:
                acc = x
            else:
                r = I.cbinop("Add", acc, x)
                if not (r.f[1].known() and r.f[1].lo == 0):
                    I.event("assert", "sum may overflow", akind="Overflow")
                acc = r.f[0]
        if acc is None:
            it0 = I.intty(fn.body["locals"][0])
            return I.iconst(0, *it0)
        return acc

    def allany(self, I, st, fn, a, isall):
        it = self.need(I, st, fn, a[0])
        tid = clos_tid(I, fn, a[1], 1)
        c = I.newcell(st, a[1])
        r = const(1)
        for x in self.drain(I, st, it):
            v = call_closure(I, st, c, tid, [x])
            p = v.p if isall else const(1) - v.p
            if not v.known() and I.secret(v.p):
                I.event("secret-branch", "Iterator::%s stops early" % fn.method)
            r = I.dom.mul(r, p)
            if r.is_const() and r.const() == 0:
                break
        return I.boolv(r if isall else const(1) - r)

    def it_all(self, I, st, fn, a):
        return self.allany(I, st, fn, a, True)

    def it_any(self, I, st, fn, a):
        return self.allany(I, st, fn, a, False)

    # ---- formatting
    def f_argument(self, I, st, fn, a):
        kind = fn.method[len("new_"):]
        return Agg((("fmtarg", kind, a[0], next((x for k, x in fn.targs if k == "t"), None)),))

    def f_args(self, I, st, fn, a):
        tpl = self.deref(I, st, a[0])
        args = self.deref(I, st, a[1])
        return ("fmtargs", tuple(x.lo for x in tpl.f), args.f)

    def f_args_str(self, I, st, fn, a):
        r = a[0]
        v = I.read_at(st, r.cell, r.path)
        return ("fmtstr", bytes(x.lo for x in v.f))

    def sink_of(self, I, st, r):
        v = self.deref(I, st, r)
        if type(v) is Ref:
            return self.sink_of(I, st, v)
        if type(v) is not Sink:
            raise Unsupported("formatter %r" % (v,))
        return r, v

    def result(self, I, fn, ok):
        tid = fn.body["locals"][0] if fn.body else self.fmt_result(I)
        if ok:
            return EnumV(((const(1), 0, (UNIT,)),), tid)
        return EnumV(((const(1), 1, (UNIT,)),), tid)

    def fmt_result(self, I):
        for i, t in enumerate(I.prog.types):
            if t.get("str", "").replace("core::", "std::") == "std::result::Result<(), std::fmt::Error>":
                return i
        raise Unsupported("fmt::Result type")

    def emit(self, I, st, fn, r, items):
        r, s = self.sink_of(I, st, r)
        for x in items:
            if s.fail_at is not None and len(s.log) >= s.fail_at:
                s = Sink(s.log + (("err",),), s.fail_at)
                I.write_at(st, r.cell, r.path, s)
                return self.result(I, fn, False)
            s = Sink(s.log + (x,), s.fail_at)
        I.write_at(st, r.cell, r.path, s)
        return self.result(I, fn, True)

    def f_write(self, I, st, fn, a):
        x = a[1]
        if isinstance(x, tuple) and x[0] == "fmtstr":
            items = [("lit", x[1])] if x[1] else []
        elif isinstance(x, tuple) and x[0] == "fmtargs":
            items = self.template(I, st, bytes(x[1]), x[2])
        else:
            raise Unsupported("format arguments")
        return self.emit(I, st, fn, a[0], items)

    def template(self, I, st, t, args):
        i = 0
        n = 0
        out = []
        while True:
            b = t[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(("lit", t[i:i + b]))
                i += b
            elif b == 0x80:
                ln = int.from_bytes(t[i:i + 2], "little")
                out.append(("lit", t[i + 2:i + 2 + ln]))
                i += 2 + ln
            else:
                flags, width, prec = None, 0, 0
                if b & 1:
                    flags = int.from_bytes(t[i:i + 4], "little")
                    i += 4
                if b & 2:
                    width = int.from_bytes(t[i:i + 2], "little")
                    i += 2
                if b & 4:
                    prec = int.from_bytes(t[i:i + 2], "little")
                    i += 2
                if b & 8:
                    n = int.from_bytes(t[i:i + 2], "little")
                    i += 2
                if b & 48:
                    raise Unsupported("dynamic width")
                arg = args[n].f[0]
                n += 1
                v = self.own_fmt(I, st, arg[1], arg[2], arg[3])
                if v is None:
                    v = self.shown(I, st, arg[1], arg[2])
                if type(v) is bytes or type(v) is Sink:
                    if flags is not None or width or prec:
                        raise Unsupported("padded text")
                    out += [("lit", v)] if type(v) is bytes else list(v.log)
                else:
                    out.append(("arg", arg[1], v, flags, width, prec))
        return out

    def own_fmt(self, I, st, kind, v, tid):
        """What the crate's own implementation of a formatting trait writes for a value of one of its types."""
        trait = {"lower_hex": "LowerHex", "upper_hex": "UpperHex", "display": "Display", "debug": "Debug"}.get(kind)
        while tid is not None and I.ty(tid)["k"] in ("ref", "ptr"):
            tid = I.ty(tid)["to"]
            w = self.deref(I, st, v)
            if type(w) is not Ref:
                break
            v = w
        if tid is None or trait is None:
            return None
        f = next((f for f in I.prog.fns if f.local and f.body and f.method == "fmt" and f.trait and f.impl_self == I.ty(tid)["str"] and
                  f.trait.endswith("fmt::" + trait)), None)
        if f is None:
            return None
        c = I.newcell(st, Sink())
        r = I.call_fn(st, f, [v, Ref(c, ())])
        if type(r) is not EnumV or len(r.alts) != 1 or r.alts[0][1] != 0:
            raise Unsupported("formatting of a value that may fail")
        return I.read_at(st, c, ())

    def f_write_str(self, I, st, fn, a):
        r = a[1]
        while type(r) is Ref and r.win is None:
            v = self.deref(I, st, r)
            if type(v) is Sink:
                return self.emit(I, st, fn, a[0], list(v.log))
            if type(v) is not Ref:
                break
            r = v
        c, p, o, n = self.slice_of(I, st, r)
        bs = [I.read_at(st, c, p + (o + i,)) for i in range(n.lo)]
        if all(x.known() for x in bs):
            return self.emit(I, st, fn, a[0], [("lit", bytes(x.lo for x in bs))])
        return self.emit(I, st, fn, a[0], [("bytes", tuple(bs))])

    def f_utf8u(self, I, st, fn, a):
        c, p, o, n = self.slice_of(I, st, a[0])
        if not n.known() or any(I.read_at(st, c, p + (o + i,)).hi > 127 for i in range(n.lo)):
            raise Unsupported("text that may not be ASCII")
        return a[0]

    def f_utf8(self, I, st, fn, a):
        r = self.f_utf8u(I, st, fn, a)
        for i, t in enumerate(I.prog.types):
            if re.match(r"(std|core)::result::Result<&('?\w+ )?str, (std|core)::str::Utf8Error>$", t.get("str", "")):
                return EnumV(((const(1), 0, (r,)),), i)
        raise Unsupported("type of from_utf8")

    def f_write_char(self, I, st, fn, a):
        return self.emit(I, st, fn, a[0], [("bytes", (a[1],))] if not a[1].known() or a[1].lo > 127 else [("lit", bytes([a[1].lo]))])

    def shown(self, I, st, kind, v):
        """The value a formatting argument refers to (constant text as bytes)."""
        while type(v) is Ref:
            if kind == "display" and v.win is not None:
                c, p, o, n = self.slice_of(I, st, v)
                bs = [I.read_at(st, c, p + (o + i,)) for i in range(n.lo)] if n.known() else [None]
                if not all(type(x) is IntV and x.known() for x in bs):
                    raise Unsupported("text that is not constant")
                return bytes(x.lo for x in bs)
            v = self.deref(I, st, v)
        return v

    def f_prim(self, I, st, fn, a):
        m = re.search(r"(LowerHex|UpperHex|Display|Debug)", fn.path)
        kind = {"LowerHex": "lower_hex", "UpperHex": "upper_hex", "Display": "display", "Debug": "debug"}[m.group(1)]
        v = self.shown(I, st, kind, a[0])
        if type(v) is bytes:
            return self.emit(I, st, fn, a[1], [("lit", v)])
        return self.emit(I, st, fn, a[1], [("arg", kind, v, None, 0, 0)])

    def f_other(self, I, st, fn, a):
        raise Unsupported("formatter method " + fn.path)

    # ---- vectors
    def vec_new(self, I, st, fn, a):
        return Agg(())

    vec_with_capacity = vec_default = vec_new

    def vec_of(self, I, st, r):
        v = self.deref(I, st, r)
        while type(v) is Ref:
            r, v = v, self.deref(I, st, v)
        if type(v) is not Agg:
            raise Unsupported("vector %r" % (v,))
        return r, v

    def vec_push(self, I, st, fn, a):
        r, v = self.vec_of(I, st, a[0])
        I.write_at(st, r.cell, r.path, Agg(v.f + (a[1],)))
        return UNIT

    def vec_extend_from_slice(self, I, st, fn, a):
        r, v = self.vec_of(I, st, a[0])
        I.write_at(st, r.cell, r.path, Agg(v.f + self.s_to_vec(I, st, fn, a[1:]).f))
        return UNIT

    def vec_len(self, I, st, fn, a):
        return I.usize(len(self.vec_of(I, st, a[0])[1].f))

    def vec_deref(self, I, st, fn, a):
        r, v = self.vec_of(I, st, a[0])
        return Ref(r.cell, r.path, (0, I.usize(len(v.f))))

    vec_deref_mut = vec_as_slice = vec_as_mut_slice = vec_as_ref = vec_as_mut = vec_borrow = vec_deref

    def vec_index(self, I, st, fn, a):
        return self.index(I, st, fn, a)

    vec_index_mut = vec_index

    def vec_clone(self, I, st, fn, a):
        return self.vec_of(I, st, a[0])[1]

    def vec_from_iter(self, I, st, fn, a):
        return Agg(tuple(self.drain(I, st, self.need(I, st, fn, a[0]))))

    def vec_into_iter(self, I, st, fn, a):
        if type(a[0]) is Ref:
            return self.s_iter(I, st, fn, [self.vec_deref(I, st, fn, a)])
        if type(a[0]) is not Agg:
            raise Unsupported("vector %r" % (a[0],))
        return It("list", a[0].f)

    def vec_from_elem(self, I, st, fn, a):
        if not a[1].known() or a[1].lo > 4096:
            raise Unsupported("vector of unknown length")
        return Agg((a[0],) * a[1].lo)

    # ---- text in memory
    def str_new(self, I, st, fn, a):
        return Sink()

    str_with_capacity = str_new

    def text(self, I, st, v):
        """The output items of a string."""
        while type(v) is Ref:
            if v.win is not None:
                c, p, o, n = self.slice_of(I, st, v)
                if not n.known():
                    raise Unsupported("text of unknown length")
                bs = [I.read_at(st, c, p + (o + i,)) for i in range(n.lo)]
                if all(type(x) is IntV and x.known() for x in bs):
                    return [("lit", bytes(x.lo for x in bs))] if bs else []
                return [("bytes", tuple(bs))]
            v = self.deref(I, st, v)
        if type(v) is Sink:
            return list(v.log)
        raise Unsupported("text %r" % (v,))

    def str_ref(self, I, st, fn, a):
        r = a[0]
        v = self.deref(I, st, r) if type(r) is Ref else None
        while type(v) is Ref and v.win is None:
            r, v = v, self.deref(I, st, v)
        if type(v) is Sink or type(v) is Agg and "Vec" in (fn.name or fn.path):
            return r if type(v) is Sink else Ref(r.cell, r.path, (0, I.usize(len(v.f))))
        raise Unsupported("text %r" % (v,))

    str_deref = str_deref_mut = str_as_str = str_as_mut_str = str_as_ref = str_borrow = str_ref

    def str_append(self, I, st, r, items):
        v = self.deref(I, st, r)
        while type(v) is Ref:
            r, v = v, self.deref(I, st, v)
        if type(v) is not Sink:
            raise Unsupported("text %r" % (v,))
        I.write_at(st, r.cell, r.path, Sink(v.log + tuple(items), None))

    def str_push_str(self, I, st, fn, a):
        self.str_append(I, st, a[0], self.text(I, st, a[1]))
        return UNIT

    str_add_assign = str_push_str

    def str_add(self, I, st, fn, a):
        return Sink(tuple(self.text(I, st, a[0])) + tuple(self.text(I, st, a[1])), None)

    def str_push(self, I, st, fn, a):
        self.str_append(I, st, a[0], [("bytes", (a[1],))] if not a[1].known() or a[1].lo > 127 else
                        [("lit", bytes([a[1].lo]))])
        return UNIT

    def str_clone(self, I, st, fn, a):
        return Sink(tuple(self.text(I, st, a[0])), None)

    str_from = str_to_string = str_to_owned = str_into_string = str_clone

    def str_to_uppercase(self, I, st, fn, a):
        up = []
        for x in self.text(I, st, a[0]):
            if x[0] == "lit":
                up.append(("lit", x[1].upper()))
            elif x[0] == "arg" and x[1] in ("lower_hex", "upper_hex") and not (x[3] or 0) >> 23 & 1:
                up.append(("arg", "upper_hex") + tuple(x[2:]))
            else:
                raise Unsupported("upper case of %s" % (x[0],))
        return Sink(tuple(up), None)

    str_to_ascii_uppercase = str_to_uppercase

    def str_format(self, I, st, fn, a):
        x = a[0]
        if isinstance(x, tuple) and x[0] == "fmtstr":
            return Sink((("lit", x[1]),) if x[1] else (), None)
        if isinstance(x, tuple) and x[0] == "fmtargs":
            return Sink(tuple(self.template(I, st, bytes(x[1]), x[2])), None)
        raise Unsupported("format arguments")

    def str_write_str(self, I, st, fn, a):
        return self.emit(I, st, fn, a[0], self.text(I, st, a[1]))

    def str_write_fmt(self, I, st, fn, a):
        return self.f_write(I, st, fn, a)

    def str_write_char(self, I, st, fn, a):
        return self.f_write_char(I, st, fn, a)

    def str_concat(self, I, st, fn, a, sep=()):
        c, p, o, n = self.slice_of(I, st, a[0])
        out = []
        for i in range(n.lo):
            if i:
                out += sep
            out += self.text(I, st, I.read_at(st, c, p + (o + i,)))
        if not n.known():
            raise Unsupported("join")
        return Sink(tuple(out), None)

    def str_join(self, I, st, fn, a):
        return self.str_concat(I, st, fn, a, self.text(I, st, a[1]))

    def it_collect_text(self, I, st, fn, it, tid):
        s = I.ty(tid).get("str", "")
        if re.match(r"(std|alloc)::vec::Vec<(std|alloc)::string::String>$", s):
            return Agg(tuple(self.drain(I, st, it)))
        if not re.match(r"(std|alloc)::string::String$", s):
            return None
        out = []
        for x in self.drain(I, st, it):
            if type(x) is IntV:
                out.append(("bytes", (x,)) if not x.known() or x.lo > 127 else ("lit", bytes([x.lo])))
            else:
                out += self.text(I, st, x)
        return Sink(tuple(out), None)

    # ---- random numbers
    def rand(self, fn):
        m = fn.method or fn.path.split("::")[-1]

        def draw(I, st, lo, hi, bits, signed, ref):
            v = self.deref(I, st, ref)
            if type(v) is Ref:
                ref, v = v, self.deref(I, st, v)
            if type(v) is not Rng:
                raise Unsupported("random source %r" % (v,))
            I.write_at(st, ref.cell, ref.path, Rng(v.n + 1))
            p = I.dom.sym("draw%d" % v.n, lo, hi)
            return IntV(p, lo, hi, bits, signed)

        def gen_range(I, st, f, a):
            lo, hi = a[1], a[2]
            if not (lo.known() and hi.known()):
                raise Unsupported("gen_range with symbolic bounds")
            if lo.lo >= hi.lo:
                I.event("panic", "gen_range with an empty range [%d, %d)" % (lo.lo, hi.lo))
                raise Diverge()
            return draw(I, st, lo.lo, hi.lo - 1, lo.bits, lo.signed, a[0])

        def next_u(bits):
            def h(I, st, f, a):
                return draw(I, st, 0, (1 << bits) - 1, bits, False, a[0])
            return h

        def gen(I, st, f, a):
            t = None
            for k, x in f.targs[-1:]:
                t = x if k == "t" else None
            it = I.intty(t) if isinstance(t, int) else None
            if it is None:
                raise Unsupported("Rng::gen of a non-integer")
            lo, hi = ty_range(*it)
            return draw(I, st, lo, hi, it[0], it[1], a[0])
        if m == "gen_range":
            return gen_range
        if m == "next_u32":
            return next_u(32)
        if m == "next_u64":
            return next_u(64)
        if m == "gen":
            return gen
        return NotImplemented
