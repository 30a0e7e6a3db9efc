"""Point operations: the Edwards group law in coordinates, and multiples of a point for the ladder.

In coordinates, a well-formed representation of (x, y) is X = x z, Y = y z, Z = z, T = x y z with z != 0.  The
outputs are polynomials over F_p in x, y, z of the operands; they are compared with the addition law modulo the
curve equation, i.e. after rewriting x^2 y^2 to (x^2 + y^2 - 1)/d.  A result is a well-formed representation of
the specified point when X3 den = Z3 num for both coordinates, T3 Z3 = X3 Y3, and Z3 is a non-zero constant times
a product of factors that do not vanish on the curve: the z of the operands, and the denominators of the
(complete) addition law.
"""
from dom import ZERO, const
from ring import RPoly, rconst, rvar, rmul, rpow
from interp import Agg, FEV, IntV, PTV, Ref, Unsupported
from fields import CURVES
from oblig import Case


def coords(C, name, ci=None):
    """Coordinates of a well-formed point; -> (abstract value, x, y, z)."""
    ci = ci or C.ci
    p = ci.fi.p
    at = [C.I.dom.atom("fe", name + v, 0, p - 1, name=name + v, public=False) for v in "xyz"]
    x, y, z = (rvar(a, p) for a in at)
    m = lambda *f: prod(f, p)
    val = {"x": m(x, z), "y": m(y, z), "z": z, "t": m(x, y, z)}
    return Agg(tuple(FEV(ci.fi, val[n]) for n in ci.order)), at


def prod(fs, p):
    r = rconst(1, p)
    for f in fs:
        r = rmul(r, f, ())
    return r


def arbitrary(C, name, ci):
    """A point value about which nothing is assumed."""
    p = ci.fi.p
    return Agg(tuple(FEV(ci.fi, rvar(C.I.dom.atom("fe", name + n, 0, p - 1, name=name + "." + n, public=False), p))
                     for n in ci.order))


class Curve:
    """Arithmetic modulo the curve equation for a list of points (pairs of atoms)."""

    def __init__(self, p, d, pts):
        self.p, self.d, self.pts = p, d % p, pts
        self.di = pow(self.d, p - 2, p)

    def red(self, R):
        p = self.p
        for x, y in self.pts:
            while True:
                out = {}
                again = False
                for m, c in R.d.items():
                    e = dict(m)
                    if e.get(x, 0) >= 2 and e.get(y, 0) >= 2:
                        again = True
                        e[x] -= 2
                        e[y] -= 2
                        for dx, dy, k in ((2, 0, 1), (0, 2, 1), (0, 0, -1)):
                            f = dict(e)
                            f[x] += dx
                            f[y] += dy
                            mm = tuple(sorted((a, n) for a, n in f.items() if n))
                            out[mm] = (out.get(mm, 0) + k * c * self.di) % p
                    else:
                        out[m] = (out.get(m, 0) + c) % p
                R = RPoly({m: c for m, c in out.items() if c}, p)
                if not again:
                    break
        return R

    def mul(self, *fs):
        r = rconst(1, self.p)
        for f in fs:
            r = self.red(rmul(r, f, ()))
        return r


def proportional(a, b):
    if not a.d or not b.d or set(a.d) != set(b.d):
        return False
    m = next(iter(a.d))
    p = a.p
    k = a.d[m] * pow(b.d[m], p - 2, p) % p
    return all(c == b.d[n] * k % p for n, c in a.d.items())


def is_unit(K, Z, zs, factors):
    """Z = nonzero constant * monomial in zs * product of powers of the factors?"""
    if not Z.d:
        return False
    # strip the common monomial in the z's
    strip = {}
    for z in zs:
        strip[z] = min(dict(m).get(z, 0) for m in Z.d)
    d = {}
    for m, c in Z.d.items():
        d[tuple((a, e - strip.get(a, 0)) for a, e in m if e - strip.get(a, 0))] = c
    Z = RPoly(d, Z.p)
    top = 3 if len(factors) <= 2 else 2
    pows = [[rconst(1, Z.p)] for _ in factors]
    for i, f in enumerate(factors):
        for _ in range(top):
            pows[i].append(K.mul(pows[i][-1], f))

    def go(i, acc):
        if i == len(factors):
            return proportional(Z, acc)
        return any(go(i + 1, K.mul(acc, q)) for q in pows[i])
    return go(0, rconst(1, Z.p))


def is_point(C, K, v, xn, xd, yn, yd, zs, units, what):
    """v is a well-formed representation of (xn/xd, yn/yd)."""
    I, ci = C.I, C.ci
    if type(v) is not Agg or len(v.f) != len(ci.order):
        raise Unsupported("point %r" % (v,))
    c = {n: K.red(I.resolve(I.lift(ci.fi, v.f[i]).R)) for i, n in enumerate(ci.order)}
    X, Y, Z, T = c["x"], c["y"], c["z"], c["t"]

    def same(a, b, msg):
        D = a - b
        C.ok(not D.d, "spec", "%s: %s; the difference %s does not vanish on the curve" % (what, msg, C.show(D)))
    same(K.mul(X, xd), K.mul(Z, xn), "X/Z is not the x-coordinate of the specified point")
    same(K.mul(Y, yd), K.mul(Z, yn), "Y/Z is not the y-coordinate of the specified point")
    same(K.mul(T, Z), K.mul(X, Y), "T Z differs from X Y")
    C.ok(is_unit(K, Z, zs, units), "spec", "%s: Z = %s is not shown non-zero for every point of the curve" %
         (what, C.show(Z)))


def const_d(C):
    ci = C.ci
    if ci.short not in CURVES:
        raise Unsupported("no published coefficient for curve " + ci.name)
    return CURVES[ci.short][1]


def c_zero(E, op):
    def check(C, ret):
        K = Curve(C.fi.p, const_d(C), [])
        one, zero = rconst(1, C.fi.p), rconst(0, C.fi.p)
        is_point(C, K, ret, zero, one, one, one, [], [], "the zero point")
    return [Case("constant", lambda C: [], check)]


def c_init(E, op):
    def build(C):
        p = C.fi.p
        C.at = [C.I.dom.atom("fe", "P" + v, 0, p - 1, name=v, public=False) for v in "xy"]
        es = iter([FEV(C.fi, rvar(a, p)) for a in C.at])
        out = []
        for k in op.args:
            out.append(C.by(k, arbitrary(C, "old", op.ci) if k.k == "P" else next(es)))
        return out

    def check(C, ret):
        p = C.fi.p
        K = Curve(p, const_d(C), [tuple(C.at)])
        one = rconst(1, p)
        v = C.val(C.args[0]) if op.ret.k == "unit" else ret
        is_point(C, K, v, rvar(C.at[0], p), one, rvar(C.at[1], p), one, [], [], "the initialised point")
    return [Case("any coordinates, any previous content", build, check)]


def c_add(E, op):
    def build(C):
        C.P, C.p1 = coords(C, "p")
        C.Q, C.p2 = coords(C, "q")
        C.lhs = C.by(op.args[0], C.P)
        return [C.lhs, C.by(op.args[1], C.Q)]

    def check(C, ret):
        p = C.fi.p
        d = const_d(C)
        K = Curve(p, d, [tuple(C.p1[:2]), tuple(C.p2[:2])])
        x1, y1, z1 = (rvar(a, p) for a in C.p1)
        x2, y2, z2 = (rvar(a, p) for a in C.p2)
        one = rconst(1, p)
        if op.key == "psub":
            x2 = -x2
        de = prod((x1, x2, y1, y2), p).scale(d)
        xn = rmul(x1, y2, ()) + rmul(y1, x2, ())
        yn = rmul(y1, y2, ()) - rmul(x1, x2, ())
        v = C.val(C.args[0]) if op.ret.k == "unit" else ret
        is_point(C, K, v, xn, one + de, yn, one - de, [C.p1[2], C.p2[2]], [one + de, one - de], "the sum")
    return [Case("any two points", build, check)]


def unary(label, mk):
    def c(E, op):
        def build(C):
            C.P, C.p1 = coords(C, "p")
            return [C.by(op.args[0], C.P)]

        def check(C, ret):
            p = C.fi.p
            K = Curve(p, const_d(C), [tuple(C.p1[:2])])
            x, y, z = (rvar(a, p) for a in C.p1)
            xn, xd, yn, yd, units = mk(K, x, y, p)
            v = C.val(C.args[0]) if op.ret.k == "unit" else ret
            is_point(C, K, v, xn, xd, yn, yd, [C.p1[2]], units, label)
        return [Case("any point", build, check)]
    return c


def dbl(K, x, y, p):
    m = K.mul
    s = m(x, x) + m(y, y)
    two = rconst(2, p)
    return m(x, y).scale(2), s, m(y, y) - m(x, x), two - s, [s, two - s]


def tpl(K, x, y, p):
    m = K.mul
    one, two = rconst(1, p), rconst(2, p)
    s = m(x, x) + m(y, y)
    t = two - s
    e = m(y, y) - m(x, x)
    dp = m(s, t) + m(s - one, e).scale(2)
    dm = m(s, t) - m(s - one, e).scale(2)
    xn = m(x, e, s) + m(x, y, y, t).scale(2)
    yn = m(y, e, s) - m(x, x, y, t).scale(2)
    return xn, dp, yn, dm, [dp, dm, s, t]


# ------------------------------------------------------------------ multiples of points
def formal(C, name):
    return PTV(C.ci, C.I.dom.sym("k" + name, -(1 << 600), 1 << 600, public=False))


def c_form(E, op):
    """Forms defined through the core operation: formal multiples of a base point."""
    from cases import against

    def build(C):
        return [C.by(k, formal(C, "ab"[i])) for i, k in enumerate(op.args)]
    alt = COORDS[op.key](E, op)[0]
    alt.level = 4
    return [Case("any points", build, against, alt=alt)]


def c_scalar(E, op):
    from cases import against

    def build(C):
        out = []
        for k in op.args:
            if k.k == "P":
                out.append(C.by(k, PTV(C.ci, const(1))))
            else:
                out.append(C.by(k, C.elem("k", canon=(op.key == "scalar_mult_normalized"))))
        return out
    return [Case("any point, any scalar", build, against)]


def c_dval(E, op):
    def check(C, ret):
        nm = (op.fn.impl_self or "").split("::")[-1]
        if nm not in CURVES:
            raise Unsupported("no published coefficient for curve " + nm)
        short, d = CURVES[nm]
        C.ok(C.fi.short == short, "spec", "curve %s uses field %s instead of %s" % (nm, C.fi.short, short))
        C.residue(C.fi, ret, rconst(d, C.fi.p), "coefficient of " + nm)
    return [Case("constant", lambda C: [], check)]


def form_or(core):
    def c(E, op):
        return core(E, op)
    return c


CASES = {
    "pzero": c_zero, "pinit": c_init,
    "pdouble": unary("the double", dbl), "ptriple": unary("the triple", tpl),
    "pdoubled": c_form, "ptripled": c_form,
    "scalar_mult_normalized": c_scalar, "scalar_mult": c_scalar, "d_val": c_dval,
}


# the same operations on coordinates, for forms that are written out instead of calling the core operation
COORDS = {"pdoubled": CASES["pdouble"], "ptripled": CASES["ptriple"], "padd": c_add, "psub": c_add}


def add_cases(E, op):
    return c_add(E, op) if op.level == 4 else c_form(E, op)


CASES["padd"] = add_cases
CASES["psub"] = add_cases
