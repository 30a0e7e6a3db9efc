"""Abstract interpreter for MIR over the polynomial/interval domain.

Function bodies are analysed once per calling context with abstract values; at a branch whose condition the
domain cannot decide, both arms are analysed and joined at the immediate post-dominator (the join keeps the
exact guarded value sum_i cond_i * value_i).  No path is ever enumerated to the end and nothing is executed.
"""
import time

from dom import Dom, Poly, ZERO, const, v2
from ring import RPoly, rconst, rvar, rmul, from_poly, rsubst


class Unsupported(Exception):
    pass


class Diverge(Exception):
    """The current arm ends in a panic or is unreachable."""


class IntV:
    __slots__ = ("p", "lo", "hi", "bits", "signed")

    def __init__(self, p, lo, hi, bits, signed):
        self.p, self.lo, self.hi, self.bits, self.signed = p, lo, hi, bits, signed

    def __eq__(self, o):
        return type(o) is IntV and self.p.d == o.p.d and self.bits == o.bits and self.signed == o.signed

    def __hash__(self):
        return hash(self.p)

    def known(self):
        return self.lo == self.hi

    def __repr__(self):
        return f"Int({len(self.p.d)}t,[{self.lo},{self.hi}])"


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return type(o) is Agg and self.f == o.f

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Agg{self.f}"


UNIT = Agg(())


class EnumV:
    """Alternatives (cond poly, variant index, fields); conds are exclusive and cover everything."""
    __slots__ = ("alts", "tid")

    def __init__(self, alts, tid):
        self.alts, self.tid = alts, tid

    def __eq__(self, o):
        return type(o) is EnumV and self.alts == o.alts

    def __repr__(self):
        return f"Enum{[(i, f) for _, i, f in self.alts]}"


class Ref:
    __slots__ = ("cell", "path", "win")

    def __init__(self, cell, path, win=None):
        self.cell, self.path, self.win = cell, path, win    # win: (offset, len IntV) for slices

    def __eq__(self, o):
        return type(o) is Ref and self.cell == o.cell and self.path == o.path and self.win == o.win

    def __repr__(self):
        return f"Ref({self.cell},{self.path},{self.win})"


class FnV:
    __slots__ = ("tid",)

    def __init__(self, tid):
        self.tid = tid

    def __eq__(self, o):
        return type(o) is FnV and self.tid == o.tid

    def __repr__(self):
        return f"Fn{self.tid}"


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"Top({self.why})"


class Uninit:
    def __repr__(self):
        return "Uninit"


UNINIT = Uninit()


class SymArr:
    """A byte buffer of symbolic length: elements by index, with a log of reads and writes."""
    __slots__ = ("name", "length", "w", "reads", "elem")

    def __init__(self, name, length, elem, w=(), reads=None):
        self.name, self.length, self.elem = name, length, elem
        self.w = dict(w)
        self.reads = set() if reads is None else reads

    def __eq__(self, o):
        return type(o) is SymArr and self.name == o.name and self.w == o.w

    def get(self, i):
        self.reads.add(i)
        v = self.w.get(i)
        return self.elem(i) if v is None else v

    def set(self, i, v):
        return SymArr(self.name, self.length, self.elem, {**self.w, i: v}, self.reads)


class IterV:
    """A fully materialised iterator (list of items not yet yielded)."""
    __slots__ = ("items", "clos")

    def __init__(self, items, clos=()):
        self.items, self.clos = tuple(items), tuple(clos)

    def __eq__(self, o):
        return type(o) is IterV and self.items == o.items and self.clos == o.clos

    def __repr__(self):
        return f"Iter({len(self.items)})"


class FEV:
    """A field element: residue polynomial, canonical-form flag, mask and support information."""
    __slots__ = ("fi", "R", "canon", "mask", "supp", "limbs", "label")

    def __init__(self, fi, R, canon=False, mask=None, supp=None, limbs=None, label=None):
        self.fi, self.R, self.canon, self.mask, self.limbs, self.label = fi, R, canon, mask, limbs, label
        self.supp = supp

    def __eq__(self, o):
        return self is o or (type(o) is FEV and self.fi is o.fi and self.R == o.R and self.canon == o.canon and
                             self.mask == o.mask and self.supp == o.supp and self.limbs == o.limbs and
                             self.label == o.label)

    def __repr__(self):
        return f"FE({len(self.R.d)}t{',canon' if self.canon else ''}{',mask' if self.mask is not None else ''})"


class PTV:
    """A point known to be k*P for the analysis' base point P (k an integer polynomial)."""
    __slots__ = ("ci", "k", "coords")

    def __init__(self, ci, k, coords=None):
        self.ci, self.k, self.coords = ci, k, coords

    def __eq__(self, o):
        return self is o or (type(o) is PTV and self.ci is o.ci and self.k == o.k)

    def __repr__(self):
        return "PT"


class State:
    __slots__ = ("cells",)

    def __init__(self, cells=None):
        self.cells = cells if cells is not None else {}

    def copy(self):
        return State(dict(self.cells))


class Frame:
    __slots__ = ("fn", "loc", "span")

    def __init__(self, fn, loc):
        self.fn, self.loc, self.span = fn, loc, None


def ty_range(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


class Interp:
    MAXDEPTH = 200
    MAXFORK = 24

    def __init__(self, prog, dom=None, models=None, specs=None):
        self.prog = prog
        self.dom = dom or Dom()
        self.models = models
        self.specs = specs             # summary provider or None
        self.events = []
        self.evkeys = set()
        self.counts = {}
        self.ncell = 0
        self.stack = []
        self.forks = 0
        self.consts = {}
        self.groups = {}               # lead limb atom -> residue polynomial it stands for
        self.fresh = 0
        self.root_depth = 0
        self.called = set()
        self.on_panic = self.cur = None      # observer of panics; state of the innermost block
        self.used = set()
        self.steps = 0
        self.maxsteps = 6000000
        self.deadline = None
        self.errloc = None

    # ------------------------------------------------------------------ utilities
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def event(self, kind, detail="", **kw):
        if self.on_panic is not None and kind in ("assert", "panic"):
            self.on_panic(self, kind, detail, kw.pop("args", None))
        kw.pop("args", None)
        fr = self.stack[-1] if self.stack else None
        loc = self.prog.loc(fr.span) if fr else "?"
        fn = fr.fn.path if fr else "?"
        # report the innermost frame of the crate under analysis
        lf = next((f for f in reversed(self.stack) if f.fn.local), fr)
        key = (kind, fr.fn.id if fr else None, loc, detail, kw.get("atom"))
        if key in self.evkeys:
            return
        self.evkeys.add(key)
        self.events.append(dict(kind=kind, fn=fn, loc=loc, detail=detail,
                                local_fn=lf.fn.path if lf else fn,
                                local_loc=self.prog.loc(lf.span) if lf else loc,
                                via=[f.fn.path + " @ " + self.prog.loc(f.span) for f in self.stack], **kw))

    def newcell(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def mk(self, p, bits, signed, lo=None, hi=None):
        if p.is_const():
            c = p.const()
            return IntV(p, c, c, bits, signed)
        l, h = self.dom.iv(p) if len(p.d) <= 24 else (None, None)
        if l is None:
            if lo is None:
                l, h = self.dom.iv(p)
            else:
                l, h = lo, hi
        if lo is not None and lo > l:
            l = lo
        if hi is not None and hi < h:
            h = hi
        if l == h:
            p = const(l)
        return IntV(p, l, h, bits, signed)

    def iconst(self, c, bits=64, signed=True):
        return IntV(const(c), c, c, bits, signed)

    def boolv(self, p):
        return self.mk(p, 1, False, 0, 1)

    def usize(self, c):
        return self.iconst(c, self.prog.ptr, False)

    def secret(self, p):
        at = self.dom.at
        return any(not at[a].public for a in p.atoms())

    def ty(self, tid):
        return self.prog.types[tid]

    def intty(self, tid):
        t = self.prog.types[tid]
        k = t["k"]
        if k == "int":
            return t["bits"], t["signed"]
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        return None

    # ------------------------------------------------------------------ memory
    def walk(self, st, cell, path, hook=True):
        v = st.cells[cell]
        for i, e in enumerate(path):
            v = self.step(st, cell, path[:i], v, e)
        return v

    def step(self, st, cell, prefix, v, e):
        t = type(v)
        if t is Agg:
            if isinstance(e, tuple):
                if e[0] == "v":
                    return v
                raise Unsupported("projection %r of aggregate" % (e,))
            return v.f[e]
        if t is FEV:
            a = self.materialise(v)
            self.store(st, cell, prefix, a)
            return self.step(st, cell, prefix, a, e)
        if t is PTV:
            a = self.materialise_pt(v)
            self.store(st, cell, prefix, a)
            return self.step(st, cell, prefix, a, e)
        if t is EnumV:
            if isinstance(e, tuple) and e[0] == "v":
                alts = [a for a in v.alts if a[1] == e[1]]
                if not alts:
                    raise Diverge()
                if len(alts) == 1:
                    return Agg(alts[0][2])
                return Agg(tuple(self.merge_vals([a[0] for a in alts], [a[2][i] for a in alts])
                                 for i in range(len(alts[0][2]))))
            raise Unsupported("projection into enum")
        if t is SymArr:
            return v.get(e)
        if t is Top:
            return v
        raise Unsupported("projection %r into %r" % (e, v))

    def load(self, st, ref_cell, path):
        return self.walk(st, ref_cell, path)

    def store(self, st, cell, path, v):
        if not path:
            st.cells[cell] = v
            return
        st.cells[cell] = self.upd(st, cell, (), st.cells[cell], path, v)

    def upd(self, st, cell, prefix, old, path, v):
        if not path:
            return v
        e = path[0]
        t = type(old)
        if t is FEV:
            old = self.materialise(old)
            t = Agg
        elif t is PTV:
            old = self.materialise_pt(old)
            t = Agg
        if t is Agg:
            if isinstance(e, tuple):
                if e[0] == "v":
                    return self.upd(st, cell, prefix + (e,), old, path[1:], v)
                raise Unsupported("store projection")
            f = list(old.f)
            while len(f) <= e:
                f.append(UNINIT)
            f[e] = self.upd(st, cell, prefix + (e,), f[e], path[1:], v)
            return Agg(tuple(f))
        if t is SymArr:
            if len(path) != 1:
                raise Unsupported("nested store in buffer")
            return old.set(e, v)
        if t is EnumV:
            if isinstance(e, tuple) and e[0] == "v" and len(old.alts) == 1 and old.alts[0][1] == e[1]:
                a = self.upd(st, cell, prefix + (e,), Agg(old.alts[0][2]), path[1:], v)
                return EnumV(((old.alts[0][0], e[1], a.f),), old.tid)
            raise Unsupported("store into enum")
        if t is Uninit:
            # partially initialised aggregate
            if isinstance(e, tuple):
                raise Unsupported("store into uninit enum")
            f = [UNINIT] * (e + 1)
            f[e] = self.upd(st, cell, prefix + (e,), UNINIT, path[1:], v)
            return Agg(tuple(f))
        raise Unsupported("store into %r" % (old,))

    # ------------------------------------------------------------------ field elements
    def materialise(self, v):
        if v.limbs is None:
            self.fresh += 1
            v.limbs = self.specs.limbs_of(self, v)
        return v.fi.build(self.prog, list(v.limbs))

    def materialise_pt(self, v):
        if v.coords is None:
            v.coords = self.specs.coords_of(self, v)
        return v.coords

    def lift(self, fi, v):
        """Any abstract value of a field type -> FEV."""
        if type(v) is FEV:
            return v
        if type(v) is not Agg:
            raise Unsupported("cannot lift %r" % (v,))
        limbs = fi.limbs_in(v)
        R = RPoly({}, fi.p)
        for i, x in enumerate(limbs):
            if type(x) is not IntV:
                raise Unsupported("field element with non-integer limb %r" % (x,))
            R = R + from_poly(x.p, fi.p).scale(1 << (fi.w * i))
        R = self.resolve(R)
        canon = False
        if all(x.known() for x in limbs):
            canon = fi.is_canonical([x.lo for x in limbs])
        supp = None
        if all(x.known() and x.lo == 0 for x in limbs):
            supp = ZERO
        mask = None
        x0 = limbs[0]
        if x0.lo >= -1 and x0.hi <= 0 and all(x.p == x0.p for x in limbs):
            mask = -x0.p
        return FEV(fi, R, canon=canon, limbs=tuple(limbs), supp=supp, mask=mask)

    def resolve(self, R):
        env = {a: self.groups[a] for a in R.atoms() if a in self.groups}
        n = 0
        while env:
            R = rsubst(R, env, self.dom.boolset)
            env = {a: self.groups[a] for a in R.atoms() if a in self.groups}
            n += 1
            if n > 50:
                raise Unsupported("cyclic limb groups")
        return R

    # ------------------------------------------------------------------ joins
    def merge_vals(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 or v == v0 for v in vals[1:]):
            return v0
        ts = {type(v) for v in vals}
        if Top in ts:
            return next(v for v in vals if type(v) is Top)
        if Uninit in ts:
            return UNINIT
        if ts == {IntV}:
            p = vals[-1].p
            for c, v in zip(conds[:-1], vals[:-1]):
                if len(c.d) * (len(v.p.d) + len(vals[-1].p.d)) > 20000:
                    return Top("join of integers that depend on too many decisions")
                p = p + self.dom.mul(c, v.p - vals[-1].p)
            return self.mk(p, v0.bits, v0.signed, min(v.lo for v in vals), max(v.hi for v in vals))
        if ts == {FEV}:
            fi = v0.fi
            R = RPoly({}, fi.p)
            bs = self.dom.boolset
            supp = None
            if all(v.supp is not None for v in vals):
                supp = ZERO
                for c, v in zip(conds, vals):
                    supp = supp + self.dom.mul(c, v.supp)
            elif any(v.supp is not None for v in vals):
                supp = ZERO
                for c, v in zip(conds, vals):
                    supp = supp + self.dom.mul(c, v.supp if v.supp is not None else const(1))
            mask = None
            if all(v.mask is not None for v in vals):
                mask = ZERO
                for c, v in zip(conds, vals):
                    mask = mask + self.dom.mul(c, v.mask)
            for c, v in zip(conds, vals):
                R = R + rmul(from_poly(c, fi.p), v.R, bs)
            return FEV(fi, R, canon=all(v.canon for v in vals), mask=mask, supp=supp)
        if ts == {PTV}:
            k = ZERO
            for c, v in zip(conds, vals):
                k = k + self.dom.mul(c, v.k)
            return PTV(v0.ci, k)
        if ts <= {FEV, Agg} and FEV in ts:
            fi = next(v.fi for v in vals if type(v) is FEV)
            return self.merge_vals(conds, [self.lift(fi, v) for v in vals])
        if ts <= {PTV, Agg} and PTV in ts:
            return self.merge_vals(conds, [self.materialise_pt(v) if type(v) is PTV else v for v in vals])
        if ts == {Agg}:
            n = len(v0.f)
            if all(len(v.f) == n for v in vals):
                return Agg(tuple(self.merge_vals(conds, [v.f[i] for v in vals]) for i in range(n)))
        if ts == {EnumV}:
            alts = []
            for c, v in zip(conds, vals):
                for ac, i, f in v.alts:
                    alts.append((self.dom.mul(c, ac), i, f))
            by = {}
            for c, i, f in alts:
                by.setdefault(i, []).append((c, f))
            out = []
            for i, cs in by.items():
                tot = ZERO
                for c, _ in cs:
                    tot = tot + c
                if len(cs) == 1:
                    out.append((tot, i, cs[0][1]))
                else:
                    n = len(cs[0][1])
                    out.append((tot, i, tuple(self.merge_vals([c for c, _ in cs], [f[j] for _, f in cs])
                                              for j in range(n))))
            return EnumV(tuple(out), v0.tid)
        if ts == {SymArr}:
            keys = set()
            for v in vals:
                keys |= set(v.w)
            w = {}
            for k in keys:
                w[k] = self.merge_vals(conds, [v.w.get(k, v.elem(k)) for v in vals])
            return SymArr(v0.name, v0.length, v0.elem, w, v0.reads)
        if ts == {Ref} and all(v.cell == v0.cell and v.path == v0.path for v in vals) and \
                all(v.win is not None for v in vals) and all(v.win[0] == v0.win[0] for v in vals):
            return Ref(v0.cell, v0.path, (v0.win[0], self.merge_vals(conds, [v.win[1] for v in vals])))
        if len(ts) == 1 and hasattr(v0, "merge"):
            r = v0.merge(self, conds, vals)
            if r is not None:
                return r
        return Top("join of %s" % ", ".join(sorted(t.__name__ for t in ts)))

    def merge_states(self, outs):
        conds = [c for c, _ in outs]
        sts = [s for _, s in outs]
        cells = {}
        first = sts[0].cells
        for k, v in first.items():
            vs = [v]
            ok = True
            for s in sts[1:]:
                w = s.cells.get(k)
                if w is None:
                    ok = False
                    break
                vs.append(w)
            if not ok:
                continue
            cells[k] = v if all(w is v for w in vs) else self.merge_vals(conds, vs)
        return State(cells)

    # ------------------------------------------------------------------ path conditions
    def assume(self, cond):
        """Add the facts implied by the 0/1 polynomial cond == 1 to the innermost scope."""
        d = self.dom
        if cond.is_const():
            return
        if len(cond.d) == 1:
            (m, c), = cond.d.items()
            if c == 1 and m:
                for a in m:
                    self.assume_atom(a, True)
                return
        if len(cond.d) == 2 and cond.d.get(()) == 1:
            m = next(x for x in cond.d if x)
            if cond.d[m] == -1 and len(m) == 1:
                self.assume_atom(m[0], False)
                return
        d.fact(cond, 1, 1)

    def assume_atom(self, a, val):
        d = self.dom
        at = d.at[a]
        d.fact(d.var(a), int(val), int(val))
        if at.kind == "eq" and val:
            d.fact(at.data, 0, 0)
        elif at.kind == "eq":
            l, h = d.iv(at.data)
            if l == 0:
                d.fact(at.data, 1, h)
            elif h == 0:
                d.fact(at.data, l, -1)
        elif at.kind == "lt":
            l, h = d.iv(at.data)
            if val:
                d.fact(at.data, l, min(h, -1))
            else:
                d.fact(at.data, max(l, 0), h)

    # ------------------------------------------------------------------ places and operands
    def resolve_place(self, st, fr, place):
        """-> (cell, path, window)"""
        cell, path, win = fr.loc[place[0]], (), None
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.walk(st, cell, path)
                if type(v) is Agg and len(v.f) == 1:      # Box/NonNull-like wrappers are not modelled
                    v = v.f[0]
                if type(v) is not Ref:
                    if type(v) is Top:
                        raise Unsupported("dereference of unknown pointer (%s)" % v.why)
                    raise Unsupported("dereference of %r" % (v,))
                cell, path, win = v.cell, v.path, v.win
            elif k == "f":
                path = path + (e[1],)
            elif k in ("i", "ci"):
                off = win[0] if win else 0
                if k == "i":
                    iv = st.cells[fr.loc[e[1]]]
                    if type(iv) is not IntV:
                        raise Unsupported("index %r" % (iv,))
                    if self.secret(iv.p):
                        self.event("secret-index", self.dom.show(iv.p))
                    elif True:
                        self.count("index-public")
                    if not iv.known():
                        path = path + (("sel", iv, off, win[1] if win else None),)
                        win = None
                        continue
                    i = iv.lo
                else:
                    i = e[1]
                    if e[3]:
                        n = win[1] if win else self.usize(self.alen(st, cell, path))
                        if not n.known():
                            raise Unsupported("index from the end of a symbolic buffer")
                        i = n.lo - i
                path = path + (off + i,)
                win = None
            elif k == "ss":
                off = win[0] if win else 0
                n = win[1] if win else self.usize(self.alen(st, cell, path))
                if e[3]:
                    ln = self.mk(n.p - const(e[1] + e[2]), self.prog.ptr, False)
                else:
                    ln = self.usize(e[2] - e[1])
                win = (off + e[1], ln)
            elif k == "d":
                path = path + (("v", e[1]),)
            else:
                raise Unsupported("projection " + k)
        return cell, path, win

    def alen(self, st, cell, path):
        v = self.walk(st, cell, path)
        if type(v) is Agg:
            return len(v.f)
        raise Unsupported("length of %r" % (v,))

    def has_sel(self, path):
        return any(isinstance(e, tuple) and e[0] == "sel" for e in path)

    def sel_alts(self, st, cell, path):
        """Expand one symbolic index into guarded concrete alternatives."""
        i = next(j for j, e in enumerate(path) if isinstance(e, tuple) and e[0] == "sel")
        _, iv, off, ln = path[i]
        base = self.walk(st, cell, path[:i])
        n = len(base.f) if type(base) is Agg else None
        if n is None:
            raise Unsupported("symbolic index into %r" % (base,))
        if ln is not None:
            n = min(n, off + ln.hi) - off
        out = []
        for j in range(max(0, iv.lo), min(n - 1, iv.hi) + 1):
            c = self.dom.eq0(iv.p - const(j), iv.lo - j, iv.hi - j)
            out.append((c, path[:i] + (off + j,) + path[i + 1:]))
        if not out or len(out) > 600:
            raise Unsupported("symbolic index range")
        return out

    def read(self, st, fr, place):
        cell, path, win = self.resolve_place(st, fr, place)
        return self.read_at(st, cell, path, win)

    def read_at(self, st, cell, path, win=None):
        if self.has_sel(path):
            alts = self.sel_alts(st, cell, path)
            return self.merge_vals([c for c, _ in alts], [self.read_at(st, cell, p) for _, p in alts])
        v = self.walk(st, cell, path)
        if win is not None:
            raise Unsupported("load of an unsized slice")
        return v

    def write(self, st, fr, place, v):
        if not place[1]:
            st.cells[fr.loc[place[0]]] = v
            return
        cell, path, win = self.resolve_place(st, fr, place)
        self.write_at(st, cell, path, v)

    def write_at(self, st, cell, path, v):
        if self.has_sel(path):
            for c, p in self.sel_alts(st, cell, path):
                old = self.read_at(st, cell, p)
                self.write_at(st, cell, p, self.merge_vals([c, const(1) - c], [v, old]))
            return
        self.store(st, cell, path, v)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "const":
            return self.constant(st, o[1])
        if k == "rtc":
            # UB checks and overflow checks are analysed as enabled
            return self.iconst(1 if o[1] == "OverflowChecks" else 0, 1, False)
        pl = o[1]
        if not pl[1]:
            v = st.cells[fr.loc[pl[0]]]
        else:
            v = self.read(st, fr, pl)
        if v is UNINIT:
            return v
        return v

    def constant(self, st, c):
        key = id(c)
        v = self.consts.get(key)
        if v is not None and not isinstance(v, tuple):
            return v
        tid = c["ty"]
        if c.get("zst"):
            v = self.zst(tid)
        elif "alloc" in c:
            a = c["alloc"]
            v = self.decode(st, tid, a["bytes"], dict((o, i) for o, i in a["prov"]), 0)
        elif "tyconst" in c:
            it = self.intty(tid)
            tc = c["tyconst"]
            if it and isinstance(tc, int):
                v = self.iconst(tc, *it)
            else:
                raise Unsupported("type-level constant")
        else:
            raise Unsupported("constant %s" % c.get("other"))
        if not self.has_ref(v):
            self.consts[key] = v
        return v

    def has_ref(self, v):
        if type(v) is Ref:
            return True
        if type(v) is Agg:
            return any(self.has_ref(x) for x in v.f)
        if type(v) is EnumV:
            return any(self.has_ref(x) for a in v.alts for x in a[2])
        return False

    def zst(self, tid):
        t = self.ty(tid)
        if t["k"] == "fndef":
            return FnV(tid)
        if t["k"] == "adt" and t["adt"] == "Struct":
            return Agg(tuple(self.zst(f) for f in t["variants"][0]["fields"]))
        if t["k"] == "adt" and t["adt"] == "Enum":
            return EnumV(((const(1), 0, tuple(self.zst(f) for f in t["variants"][0]["fields"])),), tid)
        if t["k"] in ("tuple", "closure"):
            return Agg(tuple(self.zst(f) for f in t["fields"]))
        if t["k"] == "array":
            n = t["len"] or 0
            return Agg(tuple(self.zst(t["elem"]) for _ in range(n)))
        return UNIT

    def decode(self, st, tid, hx, prov, off):
        t = self.ty(tid)
        k = t["k"]
        it = self.intty(tid)
        if it:
            n = max(1, it[0] // 8)
            b = hx[2 * off:2 * (off + n)]
            if "?" in b:
                raise Unsupported("uninitialised constant")
            x = int.from_bytes(bytes.fromhex(b), self.prog.endian, signed=it[1])
            return self.iconst(x, *it)
        if k == "array":
            es = t.get("stride") or self.ty(t["elem"])["size"]
            return Agg(tuple(self.decode(st, t["elem"], hx, prov, off + i * es) for i in range(t["len"])))
        if k in ("tuple", "closure"):
            return Agg(tuple(self.decode(st, f, hx, prov, off + o)
                             for f, o in zip(t["fields"], t.get("offsets") or [0] * len(t["fields"]))))
        if k == "adt" and t["adt"] == "Struct":
            fs = t["variants"][0]["fields"]
            return Agg(tuple(self.decode(st, f, hx, prov, off + o) if self.ty(f).get("size", 1) else self.zst(f)
                             for f, o in zip(fs, t.get("offsets") or [0] * len(fs))))
        if k in ("ref", "ptr"):
            to = t["to"]
            if off not in prov:
                return Top("integer pointer")
            al = self.prog.allocs[prov[off]]
            if al["k"] != "mem":
                return Top("pointer to " + al["k"])
            w = self.prog.ptr // 4                     # hexadecimal digits of a pointer
            addend = int.from_bytes(bytes.fromhex(hx[2 * off:2 * off + w]), self.prog.endian)
            a = al["alloc"]
            p2 = dict((o, i) for o, i in a["prov"])
            tt = self.ty(to)
            if tt["k"] in ("slice", "str"):
                n = int.from_bytes(bytes.fromhex(hx[2 * off + w:2 * off + 2 * w]), self.prog.endian)
                et = tt.get("elem")
                if et is None:
                    et = None
                    items = tuple(self.iconst(x, 8, False) for x in bytes.fromhex(a["bytes"])[addend:addend + n])
                else:
                    es = self.ty(et)["size"]
                    items = tuple(self.decode(st, et, a["bytes"], p2, addend + i * es) for i in range(n))
                return Ref(self.newcell(st, Agg(items)), (), (0, self.usize(n)))
            v = self.decode(st, to, a["bytes"], p2, addend)
            return Ref(self.newcell(st, v), ())
        if k == "adt" and t["adt"] == "Enum":
            vs = t["variants"]
            tag = t.get("tag")
            if tag is None:
                if len(vs) == 1:
                    return EnumV(((const(1), 0, tuple(self.zst(f) for f in vs[0]["fields"])),), tid)
                raise Unsupported("enum constant")
            if tag["enc"].get("direct") and not any(vs[i]["fields"] for i in range(len(vs))):
                n = t["size"]
                x = int.from_bytes(bytes.fromhex(hx[2 * off:2 * (off + n)]), self.prog.endian)
                for i, vv in enumerate(vs):
                    if int(vv["discr"]) & ((1 << (8 * n)) - 1) == x:
                        return EnumV(((const(1), i, ()),), tid)
            return Top("enum constant")
        if t.get("size") == 0:
            return self.zst(tid)
        return Top("constant of type " + t.get("str", "?"))

    # ------------------------------------------------------------------ statements
    def rvalue(self, st, fr, rv, place):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "bin":
            return self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), st)
        if k == "cbin":
            return self.cbinop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k in ("ref", "addr", "reborrow"):
            pl = rv[2]
            cell, path, win = self.resolve_place(st, fr, pl)
            return Ref(cell, path, win)
        if k == "cast":
            if rv[1].startswith("PointerCoercion(ClosureFnPointer"):
                # only closures that capture nothing coerce, so the type is the whole value
                o = rv[2]
                if o[0] == "const":
                    return FnV(o[1]["ty"])
                if not o[1][1]:
                    return FnV(fr.fn.body["locals"][o[1][0]])
                raise Unsupported("coercion of a stored closure")
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            return self.unop(st, rv[1], v)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            kk = rv[1]
            if kk[0] == "adt":
                t = self.ty(kk[1])
                if t["adt"] == "Enum":
                    return EnumV(((const(1), kk[2], ops),), kk[1])
                if t["adt"] == "Union":
                    raise Unsupported("union")
                return Agg(ops)
            if kk[0] in ("array", "tuple", "closure"):
                return Agg(ops)
            if kk[0] == "rawptr":
                a = ops[0]
                if type(a) is Ref and len(ops) == 2 and type(ops[1]) is IntV:
                    return Ref(a.cell, a.path[:-1] if a.path and isinstance(a.path[-1], int) else a.path,
                               (a.path[-1] if a.path and isinstance(a.path[-1], int) else 0, ops[1]))
                return a
            raise Unsupported("aggregate " + str(kk))
        if k == "discr":
            v = self.read(st, fr, rv[1])
            if type(v) is EnumV:
                tid = v.tid
                vs = self.ty(tid)["variants"]
                p = ZERO
                los = []
                for c, i, f in v.alts:
                    dv = int(vs[i]["discr"]) if vs[i]["discr"] is not None else i
                    los.append(dv)
                    p = p + c.scale(dv)
                if len(v.alts) == 1:
                    p = const(los[0])
                return self.mk(p, self.prog.ptr, True, min(los), max(los))
            if type(v) is Top:
                raise Unsupported("discriminant of unknown value (%s)" % v.why)
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            cell, path, win = self.resolve_place(st, fr, rv[1])
            if win:
                return win[1]
            return self.usize(self.alen(st, cell, path))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if not isinstance(n, int):
                raise Unsupported("array length")
            return Agg((v,) * n)
        raise Unsupported("rvalue " + k)

    # ------------------------------------------------------------------ arithmetic
    def wrap(self, p, bits, signed, lo=None, hi=None, why=None):
        """Value of p reduced to the machine type."""
        tl, th = ty_range(bits, signed)
        l, h = self.dom.iv(p)
        if lo is not None:
            l, h = max(l, lo), min(h, hi)
        if tl <= l and h <= th:
            return self.mk(p, bits, signed, l, h)
        off = const(1 << (bits - 1)) if signed else ZERO
        q = self.dom.floor(p + off, bits, l + off.const(), h + off.const())
        return self.mk(p - q.scale(1 << bits), bits, signed, tl, th)

    def binop(self, op, a, b, st=None):
        d = self.dom
        if type(a) is EnumV or type(b) is EnumV or type(a) is Agg:
            raise Unsupported("binary operation on %r" % (a,))
        if type(a) is Ref or type(b) is Ref:
            if type(a) is Ref and type(b) is Ref and op in ("Eq", "Ne"):
                return self.iconst(int((a == b) == (op == "Eq")), 1, False)
            raise Unsupported("pointer arithmetic")
        if type(a) is Top or type(b) is Top:
            raise Unsupported("arithmetic on unknown value (%s)" % (a.why if type(a) is Top else b.why))
        if type(a) is not IntV or type(b) is not IntV:
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        bits, signed = a.bits, a.signed
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            x, lo, hi = a.p - b.p, a.lo - b.hi, a.hi - b.lo
            if op == "Eq":
                return self.boolv(d.eq0(x, lo, hi))
            if op == "Ne":
                return self.boolv(const(1) - d.eq0(x, lo, hi))
            if op == "Lt":
                return self.boolv(d.lt0(x, lo, hi))
            if op == "Ge":
                return self.boolv(const(1) - d.lt0(x, lo, hi))
            if op == "Gt":
                return self.boolv(d.lt0(-x, -hi, -lo))
            if op == "Le":
                return self.boolv(const(1) - d.lt0(-x, -hi, -lo))
            raise Unsupported("three-way compare")
        if op in ("Add", "AddUnchecked"):
            return self.wrap(a.p + b.p, bits, signed, a.lo + b.lo, a.hi + b.hi)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(a.p - b.p, bits, signed, a.lo - b.hi, a.hi - b.lo)
        if op in ("Mul", "MulUnchecked"):
            c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
            return self.wrap(d.mul(a.p, b.p), bits, signed, min(c), max(c))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            return self.shift(op[:3], a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(op, a, b)
        if op in ("Div", "Rem"):
            return self.divrem(op, a, b)
        raise Unsupported("operator " + op)

    def shift(self, op, a, b):
        bits, signed = a.bits, a.signed
        if not b.known():
            lo, hi = max(0, b.lo), min(bits - 1, b.hi)
            if hi - lo > 128:
                raise Unsupported("shift amount")
            alts = [(self.dom.eq0(b.p - const(s), b.lo - s, b.hi - s), self.shift(op, a, self.iconst(s)))
                    for s in range(lo, hi + 1)]
            return self.merge_vals([c for c, _ in alts], [v for _, v in alts])
        s = b.lo % bits
        if op == "Shr":
            self.count("shr")
            p = self.dom.floor(a.p, s, a.lo, a.hi)
            return self.mk(p, bits, signed, a.lo >> s, a.hi >> s)
        p = a.p.scale(1 << s)
        lo, hi = a.lo << s, a.hi << s
        tl, th = ty_range(bits, signed)
        if tl <= lo and hi <= th:
            self.count("shl-exact")
            return self.mk(p, bits, signed, lo, hi)
        off = const(1 << (bits - 1)) if signed else ZERO
        q = self.dom.floor(p + off, bits, lo + off.const(), hi + off.const())
        if q.is_const() and q.const() == 0:
            return self.mk(p, bits, signed, lo, hi)
        for at in q.atoms():
            self.event("shl-lossy", "shift by %d of a value in [%#x, %#x]" % (s, a.lo, a.hi), atom=at)
        return self.mk(p - q.scale(1 << bits), bits, signed, tl, th)

    def pb(self, v):
        """Mask of bits that can be set in the two's complement representation."""
        tz = 0
        if v.p.d:
            tz = min(v2(c) for c in v.p.d.values())
        full = (1 << v.bits) - 1
        if v.lo >= 0:
            m = (1 << max(1, v.hi.bit_length())) - 1
        else:
            m = full
        return (m >> tz) << tz & full

    def bitop(self, op, a, b):
        d = self.dom
        bits, signed = a.bits, a.signed
        if op == "BitAnd":
            p, lo, hi = self.and_(a, b)
            return self.mk(p, bits, signed, lo, hi)
        p, lo, hi = self.and_(a, b)
        if p.is_const() and p.const() == 0:
            r = self.mk(a.p + b.p, bits, signed, a.lo + b.lo, a.hi + b.hi)
        else:
            s = a.p + b.p - (p if op == "BitOr" else p.scale(2))
            l, h = self.or_range(a, b) if op == "BitOr" else self.xor_range(a, b)
            r = self.mk(s, bits, signed, l, h)
        if not r.p.is_const():
            if op == "BitOr":
                if a.p.d and b.p.d and a.p != b.p:
                    d.orreg.setdefault(r.p, (a.p, b.p))
                    if len(a.p.d) < 64 and all(c % (1 << bits) == 0 for c in (a.p + b.p).d.values()):
                        d.negreg.setdefault(r.p, (a.p, bits, signed))
            else:
                d.xorreg.setdefault(r.p, (a.p, b.p))
        return r

    def or_range(self, a, b):
        n = max(abs(a.lo), abs(a.hi) + 1, abs(b.lo), abs(b.hi) + 1, 1).bit_length()
        up = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1 if max(a.hi, b.hi) >= 0 else -1
        if a.lo >= 0 and b.lo >= 0:
            return max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        if a.hi < 0 or b.hi < 0:
            return max(x.lo for x in (a, b) if x.hi < 0), -1
        lo = min(a.lo, b.lo)
        return lo, up

    def xor_range(self, a, b):
        if a.lo >= 0 and b.lo >= 0:
            return 0, (1 << max(a.hi.bit_length(), b.hi.bit_length(), 0)) - 1
        n = max((-a.lo - 1 if a.lo < 0 else a.lo).bit_length(), (a.hi if a.hi >= 0 else -a.hi - 1).bit_length(),
                (-b.lo - 1 if b.lo < 0 else b.lo).bit_length(), (b.hi if b.hi >= 0 else -b.hi - 1).bit_length())
        return -(1 << n), (1 << n) - 1

    def and_range(self, a, b):
        if a.lo >= 0 and b.lo >= 0:
            return 0, min(a.hi, b.hi)
        if a.lo >= 0:
            return 0, a.hi
        if b.lo >= 0:
            return 0, b.hi
        n = max((-a.lo - 1).bit_length(), (-b.lo - 1).bit_length())
        return -(1 << n), max(a.hi, b.hi)

    def and_(self, a, b):
        d = self.dom
        lo, hi = self.and_range(a, b)
        if a.known() and b.known():
            r = a.lo & b.lo
            return const(r), r, r
        if b.known():
            return self.and_const(a, b.lo)
        if a.known():
            return self.and_const(b, a.lo)
        if a.p == b.p:
            return a.p, a.lo, a.hi
        if self.pb(a) & self.pb(b) == 0:
            return ZERO, 0, 0
        pr = None
        if len(a.p.d) * len(b.p.d) <= 10000:
            pr = d.mul(a.p, b.p)
            if not pr.d:
                return ZERO, 0, 0
        for x, y in ((a, b), (b, a)):
            # y is a multiple of a 0/1 value
            g = self.content(y)
            if g is not None:
                c, bp, neg = g
                if neg:                       # y = -c * bp with bp in {0,1}
                    c = -c
                if c == -1:
                    r = d.mul(bp, x.p)
                    return r, min(0, x.lo), max(0, x.hi)
                xp, xl, xh = self.and_const(x, c)
                return d.mul(bp, xp), min(0, xl), max(0, xh)
        # masks of the form -(c*bit) handled above; xor cancellation
        for x, y in ((a, b), (b, a)):
            r = d.xorreg.get(y.p)
            if r and (r[0] == x.p or r[1] == x.p):
                o = r[1] if r[0] == x.p else r[0]
                both = d.xorreg.get(y.p)
                base = (x.p + o - y.p)
                if all(c % 2 == 0 for c in base.d.values()):
                    half = Poly({m: c // 2 for m, c in base.d.items()})
                    return x.p - half, lo, hi
        # guard factoring: y = g * y' with g a 0/1 symbol
        for x, y in ((a, b), (b, a)):
            g = self.guard(y.p)
            if g is not None:
                gb, yp = g
                yv = self.mk(yp, y.bits, y.signed, *ty_range(y.bits, y.signed))
                r, l, h = self.and_(x, yv)
                return d.mul(d.var(gb), r), min(0, l), max(0, h)
        key = tuple(sorted((a.p, b.p), key=lambda q: sorted(q.d.items())))
        i = d.atom("and", key, lo, hi)
        return d.var(i), lo, hi

    def guard(self, p):
        """A 0/1 symbol dividing every term of p."""
        if not p.d:
            return None
        common = None
        for m in p.d:
            s = {x for x in m if x in self.dom.boolset}
            common = s if common is None else common & s
            if not common:
                return None
        g = min(common)
        q = {}
        for m, c in p.d.items():
            l = list(m)
            l.remove(g)
            q[tuple(l)] = c
        return g, Poly(q)

    def content(self, y):
        """y = +-c * B with c > 0 and B in {0,1}: (c, B, negative?)"""
        from math import gcd
        if 0 < len(y.p.d) <= 64:
            g = 0
            for c in y.p.d.values():
                g = gcd(g, c)
            if g and (y.lo == 0 and y.hi == g):
                return g, Poly({m: c // g for m, c in y.p.d.items()}), False
            if g and (y.hi == 0 and y.lo == -g):
                return g, Poly({m: -(c // g) for m, c in y.p.d.items()}), True
        return None

    def and_const(self, a, m):
        """a & m for a constant m (m as a signed or unsigned integer of a's type)."""
        d = self.dom
        bits = a.bits
        full = (1 << bits) - 1
        mu = m & full
        if mu == 0:
            return ZERO, 0, 0
        if mu == full:
            return a.p, a.lo, a.hi
        if a.lo >= 0:
            top = (1 << a.hi.bit_length()) - 1
            if top & ~mu == 0:
                return a.p, a.lo, a.hi
            mu &= top
            if mu == 0:
                return ZERO, 0, 0
        low = d.lowreg.get(a.p)
        if low is not None and mu >> low[1] == 0:
            return self.and_const(self.mk(low[0], bits, a.signed), mu)
        r = ZERO
        s = 0
        x = mu
        lo = 0
        hi = 0
        while x:
            z = v2(x)
            s += z
            x >>= z
            n = 0
            while x & 1:
                n += 1
                x >>= 1
            e = s + n
            fs = d.floor(a.p, s, a.lo, a.hi)
            if e >= bits and a.signed:
                r = r + fs.scale(1 << s)
                lo += (a.lo >> s) << s
                hi += (a.hi >> s) << s
            else:
                fe = d.floor(a.p, e, a.lo, a.hi)
                t = fs - fe.scale(1 << n)
                l, h = 0, (1 << n) - 1
                if a.lo >= 0:
                    h = min(h, a.hi >> s)
                    if a.lo >> e == a.hi >> e:
                        l = max(l, (a.lo >> s) - ((a.lo >> e) << n))
                        h = min(h, (a.hi >> s) - ((a.hi >> e) << n))
                d.fact(t, l, h)
                r = r + t.scale(1 << s)
                lo += l << s
                hi += h << s
            s = e
        return r, lo, hi

    def divrem(self, op, a, b):
        d = self.dom
        if not b.known() and (self.secret(a.p) or self.secret(b.p)):     # a constant divisor is strength-reduced
            self.event("secret-division", d.show(a.p))
        if a.known() and b.known() and b.lo:
            q = abs(a.lo) // abs(b.lo)
            if (a.lo < 0) != (b.lo < 0):
                q = -q
            return self.iconst(q if op == "Div" else a.lo - q * b.lo, a.bits, a.signed)
        if b.known() and b.lo > 0 and a.lo >= 0 and b.lo & (b.lo - 1) == 0:
            k = b.lo.bit_length() - 1
            q = d.floor(a.p, k, a.lo, a.hi)
            if op == "Div":
                return self.mk(q, a.bits, a.signed, a.lo >> k, a.hi >> k)
            return self.mk(a.p - q.scale(b.lo), a.bits, a.signed, 0, b.lo - 1)
        if b.known() and b.lo > 0 and a.lo >= 0:
            i = d.atom("div", (a.p, b.p), a.lo // b.lo, a.hi // b.lo)
            q = d.var(i)
            if op == "Div":
                return self.mk(q, a.bits, a.signed)
            return self.mk(a.p - q.scale(b.lo), a.bits, a.signed, 0, min(b.lo - 1, a.hi))
        i = d.atom("op" + op, (a.p, b.p), *ty_range(a.bits, a.signed))
        return self.mk(d.var(i), a.bits, a.signed)

    def cbinop(self, op, a, b):
        if type(a) is not IntV or type(b) is not IntV:
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        d = self.dom
        if op == "Add":
            p, lo, hi = a.p + b.p, a.lo + b.lo, a.hi + b.hi
        elif op == "Sub":
            p, lo, hi = a.p - b.p, a.lo - b.hi, a.hi - b.lo
        elif op == "Mul":
            p = d.mul(a.p, b.p)
            c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
            lo, hi = min(c), max(c)
        else:
            raise Unsupported("checked " + op)
        tl, th = ty_range(a.bits, a.signed)
        if not (tl <= lo and hi <= th):
            l, h = d.ivx(p) if len(p.d) <= 64 else d.iv(p)
            lo, hi = max(lo, l), min(hi, h)
        if tl <= lo and hi <= th:
            return Agg((self.mk(p, a.bits, a.signed, lo, hi), self.iconst(0, 1, False)))
        if hi < tl or lo > th:
            return Agg((self.mk(p, a.bits, a.signed, tl, th) if not p.is_const() else
                        self.wrap(p, a.bits, a.signed), self.iconst(1, 1, False)))
        i = d.atom("ovf", (p, const(a.bits)), 0, 1, isbool=True)
        v = IntV(p, max(lo, tl), min(hi, th), a.bits, a.signed)
        return Agg((v, IntV(d.var(i), 0, 1, 1, False)))

    def unop(self, st, op, v):
        if op == "PtrMetadata":
            if type(v) is Ref:
                if v.win:
                    return v.win[1]
                x = self.walk(st, v.cell, v.path)
                if type(x) is Agg:
                    return self.usize(len(x.f))
                if type(x) is SymArr:
                    return x.length
                return UNIT
            raise Unsupported("metadata of %r" % (v,))
        if type(v) is not IntV:
            raise Unsupported("unary %s of %r" % (op, v))
        if op == "Not":
            if v.bits == 1:
                return self.boolv(const(1) - v.p)
            c = -1 if v.signed else (1 << v.bits) - 1
            return self.mk(const(c) - v.p, v.bits, v.signed, c - v.hi, c - v.lo)
        if op == "Neg":
            return self.wrap(-v.p, v.bits, v.signed, -v.hi, -v.lo)
        raise Unsupported("unary " + op)

    def cast(self, st, kind, v, tid):
        t = self.ty(tid)
        if kind == "IntToInt":
            bits, signed = self.intty(tid)
            if type(v) is EnumV:
                vs = self.ty(v.tid)["variants"]
                p = ZERO
                for c, i, f in v.alts:
                    p = p + c.scale(int(vs[i]["discr"]))
                return self.wrap(p, bits, signed)
            if type(v) is not IntV:
                raise Unsupported("cast of %r" % (v,))
            r = self.wrap(v.p, bits, signed, v.lo, v.hi)
            return r
        if kind.startswith("PointerCoercion(Unsize"):
            if type(v) is Ref and self.ty(t["to"])["k"] == "slice":
                if v.win:
                    return v
                x = self.walk(st, v.cell, v.path)
                if type(x) in (FEV, PTV):
                    raise Unsupported("unsize of abstract element")
                return Ref(v.cell, v.path, (0, self.usize(len(x.f))))
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            return v
        if kind == "Transmute":
            return self.transmute(st, v, tid)
        if kind == "Subtype":
            return v
        raise Unsupported("cast " + kind)

    def transmute(self, st, v, tid):
        t = self.ty(tid)
        it = self.intty(tid)
        if type(v) is IntV and it:
            return self.wrap(v.p, it[0], it[1], v.lo, v.hi)
        if type(v) is Ref and t["k"] in ("ref", "ptr"):
            return v
        if type(v) is IntV and t["k"] == "array" and self.intty(t["elem"]) == (8, False):
            fs = tuple(self.bitop("BitAnd", self.wrap(self.shift("Shr", v, self.iconst(8 * i)).p, 8, False),
                                  self.iconst(255, 8, False)) for i in range(t["len"]))
            return Agg(fs if self.prog.endian == "little" else fs[::-1])
        if type(v) is Agg and it and len(v.f) * 8 == it[0]:
            p = ZERO
            for i, x in enumerate(v.f if self.prog.endian == "little" else v.f[::-1]):
                p = p + x.p.scale(1 << (8 * i))
            return self.wrap(p, it[0], it[1], 0, (1 << it[0]) - 1)
        if type(v) is Agg and t["k"] in ("array", "adt", "tuple"):
            return v
        if t["k"] == "adt" and t["adt"] == "Struct" and len(t["variants"][0]["fields"]) == 1:
            return Agg((self.transmute(st, v, t["variants"][0]["fields"][0]),))
        if type(v) is IntV and t["k"] == "adt" and t["adt"] == "Enum":
            raise Unsupported("transmute to enum")
        raise Unsupported("transmute to " + t.get("str", "?"))

    # ------------------------------------------------------------------ control
    def call_fn(self, st, fn, args, argtys=None):
        """Analyse a call; returns the result value or raises Diverge."""
        self.called.add(fn.id)
        if self.models is not None:
            r = self.models.call(self, st, fn, args)
            if r is not NotImplemented:
                return r
        if self.specs is not None and len(self.stack) > self.root_depth:
            r = self.specs.summary(self, st, fn, args)
            if r is not NotImplemented:
                return r
        if len(args) == 2 and type(args[1]) is Agg and fn.body is not None and "{closure#" in fn.name[-14:] \
                and fn.body["argc"] == 1 + len(args[1].f):
            args = [args[0]] + list(args[1].f)         # a closure called directly gets its arguments as one tuple
        return self.inline(st, fn, args)

    def inline(self, st, fn, args):
        if fn.body is None:
            if "panic" in fn.path or fn.path.startswith(("core::panicking", "std::panicking", "std::rt")):
                self.event("panic", fn.path)
                raise Diverge()
            raise Unsupported("no body for " + fn.name)
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        if sum(1 for f in self.stack if f.fn is fn) > 40:
            raise Unsupported("recursion in " + fn.name)
        b = fn.body
        fr = Frame(fn, [])
        base = self.ncell
        n = len(b["locals"])
        cells = st.cells
        for i in range(n):
            self.ncell += 1
            cells[self.ncell] = UNINIT
            fr.loc.append(self.ncell)
        argc = b["argc"]
        sp = b.get("spread")
        if sp and len(args) >= sp:
            head, tup = args[:sp - 1], args[sp - 1:]
            args = list(head) + [tup[0] if len(tup) == 1 and type(tup[0]) is Agg else Agg(tuple(tup))]
        if len(args) != argc:
            if len(args) == 2 and type(args[1]) is Agg and 1 + len(args[1].f) == argc:
                args = [args[0]] + list(args[1].f)
            else:
                raise Unsupported("argument count for " + fn.name)
        for i, a in enumerate(args):
            cells[fr.loc[i + 1]] = a
        self.stack.append(fr)
        try:
            ok = self.run(st, fr, 0, len(b["blocks"]), 0)
        except (Diverge, RecursionError):
            raise
        except Exception:
            if self.errloc is None:
                lf = next((f for f in reversed(self.stack) if f.fn.local), fr)
                self.errloc = self.prog.loc(lf.span)
            raise
        finally:
            self.stack.pop()
        if not ok:
            raise Diverge()
        v = st.cells[fr.loc[0]]
        for c in fr.loc:
            st.cells.pop(c, None)
        if v is UNINIT:
            v = UNIT
        return v

    def run(self, st, fr, bb, stop, depth):
        blocks = fr.fn.body["blocks"]
        EXIT = len(blocks)
        while True:
            if bb == stop:
                return True
            if bb == EXIT:
                raise Unsupported("control flow")
            self.steps += 1
            if self.steps & 63 == 0 and self.deadline and time.time() > self.deadline:
                raise Unsupported("time bound")
            if self.steps > self.maxsteps:
                raise Unsupported("step bound")
            blk = blocks[bb]
            self.cur = st
            try:
                for s in blk["s"]:
                    if s[0] == "=":
                        fr.span = s[3]
                        self.write(st, fr, s[1], self.rvalue(st, fr, s[2], s[1]))
                    elif s[0] == "sd":
                        v = self.read(st, fr, s[1])
                        raise Unsupported("set discriminant")
                    elif s[0] == "assume":
                        pass
                    elif s[0] == "cno":
                        raise Unsupported("copy_nonoverlapping")
                fr.span = blk["p"]
                t = blk["t"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "ret":
                    bb = EXIT
                elif k == "switch":
                    r = self.switch(st, fr, bb, t, stop, depth)
                    if r is None:
                        return False
                    bb = r
                elif k == "call":
                    f = self.operand(st, fr, t[1])
                    args = [self.operand(st, fr, a) for a in t[2]]
                    v = self.call_value(st, f, args)
                    if t[4] is None:
                        return False
                    self.write(st, fr, t[3], v)
                    bb = t[4]
                elif k == "assert":
                    bb = self.do_assert(st, fr, t)
                    if bb is None:
                        return False
                elif k == "drop":
                    bb = t[2]
                elif k in ("unreachable", "resume", "abort"):
                    if k == "unreachable":
                        self.count("unreachable-reached")
                    return False
                else:
                    raise Unsupported("terminator " + k)
            except Diverge:
                return False

    def call_value(self, st, f, args):
        if type(f) is FnV:
            if self.ty(f.tid)["k"] == "closure":
                from models import call_closure
                return call_closure(self, st, self.newcell(st, Agg(())), f.tid, args)
            fid = self.ty(f.tid).get("fn")
            if fid is None:
                raise Unsupported("unresolved call " + str(self.ty(f.tid).get("name")))
            return self.call_fn(st, self.prog.fns[fid], args)
        raise Unsupported("indirect call")

    def do_assert(self, st, fr, t):
        c = self.operand(st, fr, t[1])
        kind = t[3]
        want = 1 if t[2] else 0
        if type(c) is not IntV:
            raise Unsupported("assert on %r" % (c,))
        if not c.known():
            l, h = self.dom.ivx(c.p)
            if l == h:
                c = self.iconst(l, 1, False)
        if c.known():
            if c.lo == want:
                self.count("assert:" + kind.split("(")[0])
                return t[5]
            self.event("panic", "%s always fails" % kind)
            return None
        det = kind
        if kind.startswith("Overflow"):
            try:
                a, b = [self.operand(st, fr, o) for o in t[4]]
                det = "%s of values in [%s, %s] and [%s, %s]" % (kind, hexs(a.lo), hexs(a.hi), hexs(b.lo), hexs(b.hi))
            except Exception:
                pass
        elif kind == "BoundsCheck":
            try:
                ln, ix = [self.operand(st, fr, o) for o in t[4]]
                det = "index in [%s, %s] of a slice of length in [%s, %s]" % (ix.lo, ix.hi, hexs(ln.lo), hexs(ln.hi))
            except Exception:
                pass
        self.event("assert", det, akind=kind)
        # continue under the assumption that it holds
        cond = c.p if want else const(1) - c.p
        self.assume(cond)
        return t[5]

    def switch(self, st, fr, bb, t, stop, depth):
        v = self.operand(st, fr, t[1])
        if type(v) is not IntV:
            raise Unsupported("switch on %r" % (v,))
        if not v.known():
            l, h = self.dom.ivx(v.p)
            if l == h:
                v = self.iconst(l, v.bits, v.signed)
        if v.known():
            x = v.lo & ((1 << max(v.bits, 1)) - 1) if v.lo < 0 else v.lo
            for val, tgt in t[2]:
                if int(val) == x:
                    return tgt
            return t[3]
        if not self.secret(v.p):
            self.count("branch-public")
        elif self.compares(fr, t):
            self.count("match-to-bool")
        else:
            self.event("secret-branch", self.dom.show(v.p))
        arms = []
        rest = const(1)
        seen = 0
        for val, tgt in t[2]:
            x = int(val)
            if v.signed and x >= 1 << (v.bits - 1):
                x -= 1 << v.bits
            if x < v.lo or x > v.hi:
                continue
            c = self.dom.eq0(v.p - const(x), v.lo - x, v.hi - x)
            if c.is_const() and c.const() == 0:
                continue
            arms.append((c, tgt))
            rest = rest - c
            seen += 1
        if rest.d and not (v.hi - v.lo + 1 == seen):
            arms.append((rest, t[3]))
        return self.fork(st, fr, bb, arms, depth)

    def compares(self, fr, t):
        """match x { 0 => true, _ => false }: a comparison, whose only effect is one boolean."""
        blocks = fr.fn.body["blocks"]
        dst = set()
        for tgt in {x[1] for x in t[2]} | {t[3]}:
            b = blocks[tgt]
            s = b["s"][0] if len(b["s"]) == 1 and b["t"][0] == "goto" else None
            if not s or s[0] != "=" or s[1][1] or s[2][0] != "use" or s[2][1][0] != "const" \
                    or self.ty(s[2][1][1]["ty"])["k"] != "bool":
                return False
            dst.add((b["t"][1], s[1][0]))
        return len(dst) == 1

    def fork(self, st, fr, bb, arms, depth):
        if depth > self.MAXFORK:
            raise Unsupported("a loop whose trip count the analysis cannot bound, or too many nested branches")
        # arms with the same target are joined
        by = {}
        for c, tgt in arms:
            by[tgt] = by[tgt] + c if tgt in by else c
        arms = [(c, tgt) for tgt, c in by.items()]
        if len(arms) == 1:
            return arms[0][1]
        idom, EXIT = self.prog.ipdom(fr.fn)
        join = idom.get(bb)
        outs = []
        for c, tgt in arms:
            s2 = st.copy()
            self.dom.scopes.append(({}, {}))
            nst = len(self.stack)
            try:
                self.assume(c)
                if join is None:
                    ok = self.run(s2, fr, tgt, -1, depth + 1) if self.doomed(fr.fn, tgt, idom) else \
                        self.run(s2, fr, tgt, EXIT, depth + 1)
                else:
                    ok = self.run(s2, fr, tgt, join, depth + 1)
            finally:
                self.dom.scopes.pop()
                del self.stack[nst:]
            if ok:
                outs.append((c, s2))
        if not outs:
            return None
        if len(outs) == 1:
            st.cells = outs[0][1].cells
            self.assume(outs[0][0])
        else:
            st.cells = self.merge_states(outs).cells
        return join

    def doomed(self, fn, tgt, idom):
        return tgt not in idom


def hexs(x):
    return hex(x) if abs(x) > 4096 else str(x)
