"""Polynomials over F_p: the abstraction of field elements modulo the prime.

A field element is abstracted by the residue of the integer it represents, as a polynomial over F_p in
symbols (input elements, limbs, integers, 0/1 symbols).  Exponents are reduced with x^p = x, which holds for
every element of F_p.
"""


class RPoly:
    __slots__ = ("d", "p", "_k")

    def __init__(self, d, p):
        self.d, self.p, self._k = d, p, None

    def key(self):
        if self._k is None:
            self._k = (self.p, frozenset(self.d.items()))
        return self._k

    def __eq__(self, o):
        return self.p == o.p and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def __add__(self, o):
        p = self.p
        d = dict(self.d)
        for m, c in o.d.items():
            n = (d.get(m, 0) + c) % p
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return RPoly(d, p)

    def __neg__(self):
        return RPoly({m: self.p - c for m, c in self.d.items()}, self.p)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k %= self.p
        if not k:
            return RPoly({}, self.p)
        return RPoly({m: c * k % self.p for m, c in self.d.items()}, self.p)

    def atoms(self):
        return {a for m in self.d for a, _ in m}


def rconst(c, p):
    c %= p
    return RPoly({(): c} if c else {}, p)


def rvar(a, p):
    return RPoly({((a, 1),): 1}, p)


def mono_mul(m1, m2, p, bools):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i])
            i += 1
        elif b < a:
            out.append(m2[j])
            j += 1
        else:
            if a in bools:
                out.append((a, 1))
            else:
                s = e + f
                if s >= p:
                    s = (s - 1) % (p - 1) + 1
                out.append((a, s))
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


LIMIT = 400000


class TooBig(Exception):
    pass


def rmul(x, y, bools):
    p = x.p
    if x.is_const():
        return y.scale(x.const())
    if y.is_const():
        return x.scale(y.const())
    if len(x.d) * len(y.d) > LIMIT:
        raise TooBig("product of %d by %d terms" % (len(x.d), len(y.d)))
    out = {}
    for m1, c1 in x.d.items():
        for m2, c2 in y.d.items():
            m = mono_mul(m1, m2, p, bools)
            n = (out.get(m, 0) + c1 * c2) % p
            if n:
                out[m] = n
            else:
                out.pop(m, None)
    return RPoly(out, p)


def rpow(x, e, bools):
    p = x.p
    if e == 0:
        return rconst(1, p)
    if len(x.d) == 1:
        (m, c), = x.d.items()
        e2 = (e - 1) % (p - 1) + 1
        nm = tuple((a, 1 if a in bools else (k * e2 - 1) % (p - 1) + 1) for a, k in m)
        return RPoly({nm: pow(c, e2, p)}, p)
    r = rconst(1, p)
    b = x
    while e:
        if e & 1:
            r = rmul(r, b, bools)
        e >>= 1
        if e:
            b = rmul(b, b, bools)
    return r


def from_poly(poly, p):
    """Residue of an integer polynomial."""
    out = {}
    for m, c in poly.d.items():
        c %= p
        if not c:
            continue
        mm = []
        for a in m:
            if mm and mm[-1][0] == a:
                mm[-1] = (a, mm[-1][1] + 1)
            else:
                mm.append((a, 1))
        mm = tuple(mm)
        n = (out.get(mm, 0) + c) % p
        if n:
            out[mm] = n
        else:
            out.pop(mm, None)
    return RPoly(out, p)


def rsubst(x, env, bools):
    """Substitute atoms by residue polynomials, largest atom first."""
    if not any(a in env for a in x.atoms()):
        return x
    p = x.p
    out = RPoly({}, p)
    groups = {}
    for m, c in x.d.items():
        sub = tuple((a, e) for a, e in m if a in env)
        rest = tuple((a, e) for a, e in m if a not in env)
        groups.setdefault(sub, {})
        g = groups[sub]
        g[rest] = (g.get(rest, 0) + c) % p
    for sub, g in groups.items():
        t = RPoly({m: c for m, c in g.items() if c}, p)
        for a, e in sub:
            t = rmul(t, rpow(env[a], e, bools), bools)
        out = out + t
    return out
