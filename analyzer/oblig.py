"""Obligations: every public operation, analysed once per case, compared with its specification."""
import signal
import time
import traceback

from dom import Dom, Poly, ZERO, const
from ring import RPoly, rconst, rvar, rmul, rpow, rsubst, from_poly, TooBig
from interp import (Agg, EnumV, FEV, FnV, Interp, IntV, PTV, Ref, State, SymArr, Top, UNINIT, UNIT, Diverge,
                    Unsupported, ty_range, hexs)
from models import Models, Rng, Sink
from specs import SUMMARIES, Specs, nbytes, ones
import canon

ARITH_EV = {"assert": "arith", "panic": "arith",
            "secret-branch": "ct", "secret-index": "ct", "secret-division": "ct"}


CASE_LIMIT = 150.0          # seconds for one case


class TimeBound(Unsupported):
    pass


def _alarm(*a):
    raise TimeBound("time bound of %d s" % CASE_LIMIT)


class Case:
    """One analysis of one function."""

    def __init__(self, label, build, check, level=None, only=None, run=None, alt=None):
        self.label, self.build, self.check, self.level, self.only = label, build, check, level, only
        self.run = run             # instead of build and check: several calls on one abstract input
        self.alt = alt             # decides the same statement when the code is out of reach of this analysis


class Result:
    def __init__(self, fn, op):
        self.fn, self.op = fn, op
        self.problems = []        # (kind, message, location, via)
        self.used = set()
        self.called = set()
        self.cases = 0
        self.steps = 0
        self.counts = {}
        self.secs = 0.0
        self.obl = 0


class Ctx:
    """What a case's builder and checker see."""

    def __init__(self, E, op, case, I, st, res):
        self.E, self.op, self.case, self.I, self.st, self.res = E, op, case, I, st, res
        self.S = I.specs
        self.fi, self.ci = op.fi, op.ci
        self.args = []
        self.st0 = None
        self.extra = {}
        self.diff = set()          # symbols occurring in failed comparisons

    # -------------------------------------------------- inputs
    def cell(self, v):
        return Ref(self.I.newcell(self.st, v), ())

    def sym(self, name, lo, hi, bits, signed, public=False):
        return IntV(self.I.dom.sym(name, lo, hi, public=public, isbool=(lo == 0 and hi == 1)), lo, hi, bits, signed)

    def limbs(self, name, fi=None, box=None):
        fi = fi or self.fi
        return fi.build(self.E.prog, [self.sym("%s%d" % (name, i), lo, hi, b, s) for i, ((lo, hi), (_, b, s))
                                      in enumerate(zip(box or fi.box, fi.leaves))])

    def elem(self, name, fi=None, canon=False):
        fi = fi or self.fi
        a = self.I.dom.atom("fe", name, 0, fi.p - 1, name=name, public=False)
        return FEV(fi, rvar(a, fi.p), canon=canon)

    def bool_(self, name):
        return self.sym(name, 0, 1, 1, False)

    def by(self, kind, v):
        return v if kind.by == "val" else self.cell(v)

    def fmask(self, b, fi=None):
        fi = fi or self.fi
        return fi.build(self.E.prog, [IntV(-b.p, -1, 0, bb, s) for _, bb, s in fi.leaves])

    def std(self, mode, over=None):
        """Generic arguments: fields by `mode` (limb, elem, canon), integers and booleans symbolic."""
        out = []
        for i, k in enumerate(self.op.args):
            nm = "ab"[i] if i < 2 else "c%d" % i
            if over and i in over:
                v = over[i]
            elif k.k == "F":
                v = self.limbs(nm, k.fi) if mode == "limb" else self.elem(nm, k.fi, canon=(mode == "canon"))
            elif k.k == "M":
                v = self.limbs(nm, k.fi, [ty_range(b, s) for _, b, s in k.fi.leaves])
            elif k.k == "int":
                v = self.sym("n", *ty_range(k.bits, k.signed), k.bits, k.signed)
            elif k.k == "bool":
                v = self.bool_("b")
            elif k.k == "slice":
                v = self.buffer("buf%d" % i)
                out.append(v)
                continue
            elif k.k == "array":
                v = Agg(tuple(self.sym("y%d" % j, 0, 255, 8, False) for j in range(k.n)))
            elif k.k == "rng":
                v = Rng(0)
            elif k.k == "fmt":
                v = Sink()
            else:
                raise Unsupported("argument of type %s" % self.E.prog.types[k.tid].get("str"))
            out.append(self.by(k, v))
        return out

    def buffer(self, name, minlen=None):
        """A byte slice of symbolic length >= the packed size."""
        n = nbytes(self.fi) if minlen is None else minlen
        d = self.I.dom
        w = self.E.prog.ptr
        top = (1 << (w - 1)) - 1
        ln = IntV(d.sym(name + ".len", n, top, public=True), n, top, w, False)
        tops = {}

        def el(i):
            hi = self.extra.get("bytehi", {}).get(i, 255)
            return IntV(d.sym("%s[%d]" % (name, i), 0, hi), 0, hi, 8, False)
        c = self.I.newcell(self.st, SymArr(name, ln, el))
        return Ref(c, (), (0, ln))

    # -------------------------------------------------- outcome
    def fail(self, kind, msg, loc=None, via=None):
        fn = self.op.fn if self.op else None
        p = (kind, "%s [%s]: %s" % (self.res.fn.path, self.case.label, msg), loc or self.E.prog.fnloc(self.res.fn), via or [])
        if p not in self.res.problems:
            self.res.problems.append(p)

    def val(self, a):
        return self.I.read_at(self.st, a.cell, a.path) if type(a) is Ref else a

    def ok(self, cond, kind, msg):
        self.res.obl += 1
        if not cond:
            self.fail(kind, msg)
        return cond

    def show(self, R):
        I = self.I
        out = []
        for m, c in sorted(R.d.items(), key=lambda t: len(t[0]))[:4]:
            if c > R.p // 2:
                c -= R.p
            out.append(hexs(c) + "".join("*%s%s" % (I.dom.aname(a), "^%s" % hexs(e) if e > 1 else "") for a, e in m))
        return " + ".join(out) + (" + ... (%d terms)" % len(R.d) if len(R.d) > 4 else "")

    def residue(self, fi, v, want, what, kind="spec"):
        got = self.I.lift(fi, v).R
        D = self.I.resolve(got) - self.I.resolve(want)
        if D.d and self.vanishes(fi, D):
            self.res.obl += 1
            return
        self.diff |= D.atoms()
        self.ok(not D.d, kind, "%s: result minus specified residue is %s (mod 2^%d-%d), which is not identically 0"
                % (what, self.show(D), fi.N, fi.C))

    def vanishes(self, fi, D):
        """The residue D is zero under every combination of the carries it depends on."""
        d = self.I.dom
        if len(D.atoms()) > 40 or len(D.d) > 400:
            return False

        def leaf(env):
            W = rsubst(D, {a: rconst(v.const(), fi.p) for a, v in env.items()}, d.boolset)
            return self.show(W) if W.d else None
        return canon.cases(d, fi, D.atoms(), leaf, 4000) is None

    def canonical(self, fi, v, what):
        if type(v) is FEV:
            self.ok(v.canon, "canon", "%s is not in canonical form" % what)
            return
        why = canon.prove(self.I.dom, fi, fi.limbs_in(v))
        self.ok(why is None, "canon", "%s is not shown canonical: %s" % (what, why))

    def inbox(self, fi, v, what):
        """The internal representation satisfies the carry invariant."""
        if type(v) is FEV:
            return
        if type(v) is not Agg:
            self.fail("inv", "%s is not a field element: %r" % (what, v))
            return
        for i, (x, (lo, hi)) in enumerate(zip(fi.limbs_in(v), fi.box)):
            if type(x) is not IntV:
                self.fail("inv", "%s: limb %d is not an integer: %r" % (what, i, x))
                continue
            l, h = x.lo, x.hi
            if not (lo <= l and h <= hi):
                l2, h2 = self.guarded(x.p)
                l, h = max(l, l2), min(h, h2)
            self.E.note(fi, i, l, h)
            self.ok(lo <= l and h <= hi, "inv", "%s: limb %d can reach [%s, %s], outside the carry bound [%s, %s]"
                    % (what, i, hexs(l), hexs(h), hexs(lo), hexs(hi)))

    def guarded(self, p):
        """Interval of p by cases over the 0/1 symbols that multiply other terms."""
        d = self.I.dom
        gs = sorted({a for m in p.d if len(m) > 1 for a in m if a in d.boolset})
        if not gs or len(gs) > 6:
            return d.ivx(p)
        ivs = [d.ivx(d.subst(p, {a: const(bits >> j & 1) for j, a in enumerate(gs)})) for bits in range(1 << len(gs))]
        return min(l for l, _ in ivs), max(h for _, h in ivs)

    def intact(self):
        """Arguments passed by shared reference keep their value."""
        for i, (k, a) in enumerate(zip(self.op.args, self.args)):
            if k.by == "ref" and type(a) is Ref and a.win is None:
                x, y = self.val(a), self.I.read_at(self.st0, a.cell, a.path)
                if k.k == "F" and (type(x) is not type(y)):
                    self.residue(k.fi, x, self.I.lift(k.fi, y).R, "by-reference argument %d" % (i + 1), "intact")
                elif k.k == "P" and (type(x) is PTV or type(y) is PTV):
                    self.ok(self.S.pt(self.I, k.ci, x).k == self.S.pt(self.I, k.ci, y).k, "intact",
                            "by-reference argument %d is modified" % (i + 1))
                elif k.k in ("F", "P", "M"):
                    self.ok(x == y, "intact", "by-reference argument %d is modified" % (i + 1))

    def outs(self, ret):
        """(name, kind, value) of everything the operation produced."""
        o = []
        for i, (k, a) in enumerate(zip(self.op.args, self.args)):
            if k.by == "mut":
                o.append(("argument %d" % (i + 1), k, self.val(a)))
        if self.op.ret.k != "unit":
            o.append(("return value", self.op.ret, ret))
        return o

    def invariant(self, ret):
        for nm, k, v in self.outs(ret):
            if k.k == "F":
                self.inbox(k.fi, v, nm)
            elif k.k == "P" and type(v) is Agg:
                for j, c in enumerate(v.f):
                    self.inbox(k.fi, c, "%s.%s" % (nm, k.ci.order[j]))


class Engine:
    def __init__(self, prog, info, table):
        self.prog, self.info, self.table = prog, info, table
        self.models = Models(prog)
        self.results = {}
        self.reach = {}
        self.deadline = None
        self.misuse = False

    def note(self, fi, i, lo, hi):
        r = self.reach.setdefault(fi.name, {})
        a = r.get(i)
        r[i] = (lo, hi) if a is None else (min(lo, a[0]), max(hi, a[1]))

    def run(self, fn):
        r = self.results.get(fn.id)
        if r is None:
            r = self.analyse(fn)
            self.results[fn.id] = r
        return r

    def analyse(self, fn):
        import cases
        import misuse
        op = self.table.op(fn)
        res = Result(fn, op)
        t0 = time.time()
        if op is None:
            res.problems.append(("analysis", "%s: no specification for this operation" % fn.path,
                                 self.prog.fnloc(fn), []))
            return res
        try:
            cs = misuse.cases(self, op) if self.misuse else cases.cases(self, op)
        except Exception as e:
            res.problems.append(("analysis", "%s: %s" % (fn.path, e), self.prog.fnloc(fn), []))
            return res
        for case in cs:
            left = CASE_LIMIT if self.deadline is None else min(CASE_LIMIT, max(1.0, self.deadline - time.time()))
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, left, 5.0)
            try:
                mark = len(res.problems)
                self.one(res, op, case)
                if case.alt is not None and any(k == "analysis" for k, *_ in res.problems[mark:]):
                    del res.problems[mark:]
                    self.one(res, op, case.alt)
            except TimeBound as e:
                res.problems.append(("analysis", "%s [%s]: %s" % (fn.path, case.label, e), self.prog.fnloc(fn), []))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        res.secs = time.time() - t0
        return res

    def generic(self, fn, op):
        """Invariant and arithmetic of an exported function without specification, on any argument values."""
        if op.fi.box is None:
            raise Unsupported("no bound")
        res = Result(fn, op)
        case = Case("any input", lambda C: C.std("elem"), lambda C, r: None, level=0)
        self.one(res, op, case)
        return [p for p in res.problems if p[0] in ("inv", "arith")]

    def one(self, res, op, case):
        fn = op.fn
        lv = op.level if case.level is None else case.level
        I = Interp(self.prog, dom=Dom(), models=self.models, specs=Specs(self.table, lv, case.only))
        st = State()
        C = Ctx(self, op, case, I, st, res)
        res.cases += 1
        try:
            if case.run is not None:
                case.run(C, lambda s, args: I.inline(s, fn, args))
            else:
                C.args = case.build(C)
                C.st0 = st.copy()
                ret = I.inline(st, fn, list(C.args))
            ok = case.run is None
        except Diverge:
            C.fail("arith", "does not return normally on any input")
            ok = False
        except (Unsupported, TooBig, RecursionError) as e:
            C.fail("analysis", "cannot be analysed: %s" % (e or type(e).__name__), self.lastloc(I, fn))
            ok = False
        except Exception as e:
            C.fail("analysis", "internal error: %s: %s at %s" % (type(e).__name__, e,
                   traceback.extract_tb(e.__traceback__)[-1]), self.lastloc(I, fn))
            ok = False
        for e in I.events if not self.misuse else ():
            k = ARITH_EV.get(e["kind"])
            if k:
                C.fail(k, "%s in %s: %s" % (e["kind"], e["local_fn"], e["detail"]), e["local_loc"], e["via"])
        res.obl += sum(v for k, v in I.counts.items() if k.startswith("assert:") or k.startswith("branch"))
        if ok:
            try:
                case.check(C, ret)
                C.intact()
                C.invariant(ret)
            except (Unsupported, TooBig, Diverge, RecursionError) as e:
                C.fail("analysis", "result cannot be compared: %s" % (e or type(e).__name__))
            except Exception as e:
                C.fail("analysis", "internal error in comparison: %s: %s at %s" % (
                    type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1]))
        if any(k == "spec" for k, *_ in res.problems):
            # a shift that drops bits matters when the dropped bits make a difference to the result
            for e in I.events:
                if e["kind"] == "shl-lossy" and (e["atom"] in C.diff or not C.diff):
                    C.fail("arith", "significant bits lost in %s: %s" % (e["local_fn"], e["detail"]), e["local_loc"],
                           e["via"])
        res.used |= I.used
        res.called |= I.called
        res.steps += I.steps
        for k, v in I.counts.items():
            res.counts[k] = res.counts.get(k, 0) + v

    def lastloc(self, I, fn):
        return I.errloc or self.prog.fnloc(fn)
