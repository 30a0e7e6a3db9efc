"""Abstract domain: exact integer polynomials over symbols and floor symbols, plus intervals.

A machine integer is abstracted by
  * a polynomial P with integer coefficients over *atoms*; P is the exact mathematical value of the
    machine integer for every valuation of the input symbols;
  * an interval [lo, hi] containing every possible value;
  * a mask `pb` of the bits that can be one (only meaningful for values known non-negative).
Atoms are input symbols, floor symbols floor(Q / 2^k) of a polynomial Q, 0/1 symbols for comparisons,
and uninterpreted symbols for operations the domain has no exact transfer function for.
Nothing is ever evaluated on concrete inputs and no solver is involved.
"""
from math import gcd

INF = 1 << 4000


class Atom:
    __slots__ = ("id", "kind", "data", "lo", "hi", "isbool", "name", "public")

    def __init__(self, id, kind, data, lo, hi, isbool, name, public):
        self.id, self.kind, self.data, self.lo, self.hi = id, kind, data, lo, hi
        self.isbool, self.name, self.public = isbool, name, public


class Poly:
    """Immutable polynomial; d maps a sorted tuple of atom ids to a non-zero int."""
    __slots__ = ("d", "_k", "_h")

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def __add__(self, o):
        if len(o.d) > len(self.d):
            a, b = dict(o.d), self.d
        else:
            a, b = dict(self.d), o.d
        for m, c in b.items():
            n = a.get(m, 0) + c
            if n:
                a[m] = n
            else:
                del a[m]
        return Poly(a)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        a = dict(self.d)
        for m, c in o.d.items():
            n = a.get(m, 0) - c
            if n:
                a[m] = n
            else:
                del a[m]
        return Poly(a)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.d.items()})


ZERO = Poly({})


def const(c):
    return Poly({(): c}) if c else ZERO


def v2(n):
    return (n & -n).bit_length() - 1


class Dom:
    def __init__(self):
        self.at = []
        self.memo = {}
        self.facts = {}
        self.shifted = {}
        self.scopes = []          # stack of (poly facts, atom facts) valid under a path condition only
        self.boolset = set()
        self.orreg = {}
        self.xorreg = {}
        self.lowreg = {}        # value -> (q, n): congruent to q modulo 2^n
        self.negreg = {}        # x | -x (wrapping) in n bits: its value -> (x, n, signed)
        self.splits = {}          # small-range floor values in creation order

    # ---- atoms
    def atom(self, kind, data, lo, hi, isbool=False, name=None, public=None):
        k = (kind, data)
        i = self.memo.get(k)
        if i is not None:
            a = self.at[i]
            if lo > a.lo:
                a.lo = lo
            if hi < a.hi:
                a.hi = hi
            return i
        i = len(self.at)
        if public is None:
            public = self._pub(data)
        self.at.append(Atom(i, kind, data, lo, hi, isbool, name, public))
        if isbool:
            self.boolset.add(i)
        self.memo[k] = i
        return i

    def _pub(self, data):
        if isinstance(data, Poly):
            return all(self.at[a].public for a in data.atoms())
        if isinstance(data, tuple):
            return all(self._pub(x) for x in data)
        return True

    def sym(self, name, lo, hi, public=False, isbool=False):
        return Poly({(self.atom("sym", name, lo, hi, isbool=isbool, name=name, public=public),): 1})

    def var(self, i):
        return Poly({(i,): 1})

    # ---- ring operations with bool idempotence
    def mul(self, p, q):
        if p.is_const():
            return q.scale(p.const())
        if q.is_const():
            return p.scale(q.const())
        out = {}
        bs = self.boolset
        for m1, c1 in p.d.items():
            for m2, c2 in q.d.items():
                m = tuple(sorted(m1 + m2))
                if bs:
                    m = self._dedupe(m)
                n = out.get(m, 0) + c1 * c2
                if n:
                    out[m] = n
                else:
                    del out[m]
        return Poly(out)

    def _dedupe(self, m):
        bs = self.boolset
        last = None
        res = None
        for i, a in enumerate(m):
            if a == last and a in bs:
                if res is None:
                    res = list(m[:i])
                continue
            last = a
            if res is not None:
                res.append(a)
        return m if res is None else tuple(res)

    # ---- intervals
    def atom_iv(self, i, base=False):
        a = self.at[i]
        lo, hi = a.lo, a.hi
        if not base:
            for _, af in self.scopes:
                f = af.get(i)
                if f is not None:
                    if f[0] > lo:
                        lo = f[0]
                    if f[1] < hi:
                        hi = f[1]
        return lo, hi

    def mono_iv(self, m, base=False):
        lo, hi = 1, 1
        n = len(m)
        i = 0
        while i < n:
            al, ah = self.atom_iv(m[i], base)
            if i + 1 < n and m[i + 1] == m[i]:
                # square
                l, h = al, ah
                if l >= 0:
                    sl, sh = l * l, h * h
                elif h <= 0:
                    sl, sh = h * h, l * l
                else:
                    sl, sh = 0, max(l * l, h * h)
                lo, hi = ivmul(lo, hi, sl, sh)
                i += 2
                continue
            if lo == 1 and hi == 1:
                lo, hi = al, ah
            else:
                lo, hi = ivmul(lo, hi, al, ah)
            i += 1
        return lo, hi

    def iv(self, p, base=False):
        lo = hi = 0
        for m, c in p.d.items():
            if not m:
                lo += c
                hi += c
                continue
            l, h = self.mono_iv(m, base)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if len(p.d) > 1 and (self.facts or self.scopes):
            k, c0, sg = self.fkey(p)
            f = self.facts.get(k)
            if f is not None:
                l, h = (f[0] + c0, f[1] + c0) if sg > 0 else (c0 - f[1], c0 - f[0])
                if l > lo:
                    lo = l
                if h < hi:
                    hi = h
            if self.scopes and not base:
                for pf, _ in self.scopes:
                    f = pf.get(k)
                    if f is not None:
                        l, h = (f[0] + c0, f[1] + c0) if sg > 0 else (c0 - f[1], c0 - f[0])
                        if l > lo:
                            lo = l
                        if h < hi:
                            hi = h
        return lo, hi

    def fkey(self, p):
        """(p without constant and with canonical sign, constant, sign)."""
        c0 = p.d.get((), 0)
        q = p
        if c0:
            d = dict(p.d)
            del d[()]
            q = Poly(d)
        lead = min(q.d, key=lambda m: (len(m), m))
        if q.d[lead] < 0:
            return -q, c0, -1
        return q, c0, 1

    def ivx(self, p, base=False, depth=0):
        """Interval of p using remainders: B - 2^k*floor(B/2^k) lies in [0, 2^k-1]."""
        lo, hi = self.iv(p, base)
        if depth > 12:
            return lo, hi
        for i in sorted(p.atoms(), reverse=True):
            a = self.at[i]
            if a.kind != "q" or (i,) not in p.d:
                continue
            B, k = a.data
            lead = min(B.d, key=lambda m: (len(m), m))
            cl = p.d.get(lead)
            if cl is None or cl % B.d[lead]:
                # floor(B/2^(k-j)) - 2^j*floor(B/2^k) lies in [0, 2^j-1]
                c = p.d[(i,)]
                j = abs(c).bit_length() - 1
                if abs(c) != 1 << j or not 0 < j < k or len(p.d) > 40:
                    continue
                F = self.shifted.get((i, j)) if not self.scopes else self.floor(B, k - j)
                if F is None:
                    self.shifted[(i, j)] = F = self.floor(B, k - j)
                sg = 1 if c < 0 else -1
                rest = p - (F - self.var(i).scale(1 << j)).scale(sg)
                if (i,) in rest.d or len(rest.d) >= len(p.d):
                    continue
                l, h = self.ivx(rest, base, depth + 1)
                w = sg * ((1 << j) - 1)
                lo, hi = max(lo, l + min(0, w)), min(hi, h + max(0, w))
                continue
            m = cl // B.d[lead]
            rest = p - B.scale(m)
            n = rest.d.get((i,), 0) + (m << k)
            d = dict(rest.d)
            if n:
                d[(i,)] = n
            else:
                d.pop((i,), None)
            rest = Poly(d)
            if len(rest.d) > len(p.d):
                continue
            l, h = self.ivx(rest, base, depth + 1)
            w = m * ((1 << k) - 1)
            # a known fact about the remainder itself
            l, h = l + min(0, w), h + max(0, w)
            if l > lo:
                lo = l
            if h < hi:
                hi = h
        return lo, hi

    def fact(self, p, lo, hi):
        """Record lo <= p <= hi (globally, or within the innermost path condition)."""
        if p.is_const():
            return
        facts = self.scopes[-1][0] if self.scopes else self.facts
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if len(m) == 1 and c == 1:
                if self.scopes:
                    af = self.scopes[-1][1]
                    f = af.get(m[0])
                    af[m[0]] = (lo, hi) if f is None else (max(lo, f[0]), min(hi, f[1]))
                else:
                    a = self.at[m[0]]
                    if a.kind != "sym":
                        if lo > a.lo:
                            a.lo = lo
                        if hi < a.hi:
                            a.hi = hi
                return
        p, c0, sg = self.fkey(p)
        lo, hi = (lo - c0, hi - c0) if sg > 0 else (c0 - hi, c0 - lo)
        if len(p.d) == 1 and c0:
            return self.fact(p, lo, hi)
        f = facts.get(p)
        facts[p] = (lo, hi) if f is None else (max(lo, f[0]), min(hi, f[1]))

    # ---- floor division by 2^k
    def floor(self, p, k, lo=None, hi=None):
        """floor(p / 2^k), exactly, in a canonical form."""
        if k == 0 or not p.d:
            return p
        l, h = self.ivx(p) if len(p.d) <= 48 else self.iv(p)
        if lo is not None and lo > l:
            l = lo
        if hi is not None and hi < h:
            h = hi
        fl, fh = l >> k, h >> k
        if fl == fh:
            return const(fl)
        r = self._floor_bool(p, k)
        if r is not None:
            return r
        r = self.orreg.get(p)
        if r is not None and r[0] == -r[1] and l >= -(1 << k):
            return self.eq0(r[0]) - const(1)      # sign of x | -x
        r = self.negreg.get(p)
        if r is not None and k == r[1] - 1:       # the top bit is set unless x == 0
            ne = const(1) - self.eq0(r[0])
            return -ne if r[2] else ne
        mask = (1 << k) - 1
        whole = {}
        low = {}
        for m, c in p.d.items():
            if m:
                # the nearest multiple of 2^k is taken out
                w = (abs(c) + (1 << (k - 1)) - 1) >> k
                if w:
                    w = w if c > 0 else -w
                    whole[m] = w
                    c -= w << k
                if c:
                    low[m] = c
            else:
                if c >> k:
                    whole[m] = c >> k
                if c & mask:
                    low[m] = c & mask
        A = Poly(whole)
        if not low or (len(low) == 1 and () in low):
            return A
        B = Poly(low)
        res = A + self._floor_low(B, k, *((l - (A.const() << k), h - (A.const() << k))
                                          if A.is_const() else (None, None)))
        self.fact(res, fl, fh)
        if fh - fl <= 3 and not res.is_const():
            self.splits.setdefault(res, None)
        return res

    def _floor_bool(self, p, k):
        at = p.atoms()
        if len(at) > 3 or not all(a in self.boolset for a in at):
            return None
        at = sorted(at)
        out = ZERO
        for bits in range(1 << len(at)):
            on = {a for j, a in enumerate(at) if bits >> j & 1}
            v = sum(c for m, c in p.d.items() if all(a in on for a in m)) >> k
            if v == 0:
                continue
            t = const(v)
            for a in at:
                t = self.mul(t, self.var(a) if a in on else const(1) - self.var(a))
            out = out + t
        return out

    def _floor_low(self, B, k, lo, hi):
        # drop a low part R with 0 <= R < 2^j when the rest is a multiple of 2^j
        vals = sorted({v2(c) for m, c in B.d.items()}, reverse=True)
        if len(vals) > 1:
            for j in vals[:-1]:
                if j >= k:
                    continue
                R = Poly({m: c for m, c in B.d.items() if v2(c) < j})
                rl, rh = self.ivx(R) if len(R.d) <= 48 else self.iv(R)
                if rl >= 0 and rh < (1 << j):
                    return self.floor(Poly({m: c >> j for m, c in B.d.items() if v2(c) >= j}), k - j)
        elif vals[0] > 0:
            return self.floor(Poly({m: c >> vals[0] for m, c in B.d.items()}), k - vals[0])
        # floor((P + floor(Q/2^j)) / 2^k) = floor((2^j P + Q) / 2^(j+k))
        best = None
        for m, c in B.d.items():
            if c == 1 and len(m) == 1 and self.at[m[0]].kind == "q" and (best is None or m[0] > best):
                best = m[0]
        if best is not None:
            Q, j = self.at[best].data
            rest = dict(B.d)
            del rest[(best,)]
            new = Poly(rest).scale(1 << j) + Q
            l, h = self.iv(B)
            if lo is not None:
                l, h = max(l, lo), min(h, hi)
            # keep the interval knowledge: floor of the flattened form has the same value
            r = self.floor(new, j + k)
            self.fact(r, l >> k, h >> k)
            return r
        l, h = self.iv(B)
        if lo is not None:
            l, h = max(l, lo), min(h, hi)
        if self.scopes:
            bl, bh = self.iv(B, base=True)
            i = self.atom("q", (B, k), bl >> k, bh >> k)
            self.fact(self.var(i), l >> k, h >> k)
        else:
            i = self.atom("q", (B, k), l >> k, h >> k)
        return self.var(i)

    # ---- 0/1 symbols
    def eq0(self, p, lo=None, hi=None):
        """Polynomial (0/1) of p == 0."""
        l, h = self.iv(p)
        lo = l if lo is None else max(l, lo)
        hi = h if hi is None else min(h, hi)
        if lo > 0 or hi < 0:
            return ZERO
        if lo == 0 and hi == 0:
            return const(1)
        r = self.orreg.get(p)
        if r is not None:
            return self.mul(self.eq0(r[0]), self.eq0(r[1]))
        for a in (p.atoms() if len(p.d) <= 2 else ()):
            x = self.at[a]
            if x.kind in ("count_ones", "leading_zeros", "trailing_zeros") and \
                    p == self.var(a) - const(0 if x.kind == "count_ones" else x.hi):
                return self.eq0(x.data[0])
        r = self.xorreg.get(p)
        if r is None and len(p.d) <= 4:
            r = self.xorreg.get(-p)
        if r is not None:
            return self.eq0(r[0] - r[1])
        # p == 0 iff p/g == 0
        g = 0
        for m, c in p.d.items():
            if m:
                g = gcd(g, c)
        c0 = p.d.get((), 0)
        if g > 1:
            if c0 % g:
                return ZERO
            p = Poly({m: c // g for m, c in p.d.items()})
            lo, hi = -((-lo) // g), hi // g
        if lo >= 0 and hi <= 1:
            return const(1) - p
        if lo >= -1 and hi <= 0:
            return const(1) + p
        at = p.atoms()
        if len(at) <= 4 and all(a in self.boolset for a in at):
            return self.boolfn(sorted(at), lambda f: f(p) == 0)
        r = self.extreme(p, at)
        if r is not None:
            return r
        lead = min((m for m in p.d if m), key=lambda m: (len(m), m))
        if p.d[lead] < 0:
            p = -p
        return self.var(self.atom("eq", p, 0, 1, isbool=True))

    def extreme(self, p, at):
        """p == 0 where p is a combination of 0/1 terms whose least or greatest value is 0: all terms at that end."""
        if len(p.d) > 20 or not all(a in self.boolset for a in at):
            return None
        c0 = p.d.get((), 0)
        cs = {m: c for m, c in p.d.items() if m}
        if c0 + sum(min(c, 0) for c in cs.values()) == 0:
            on = [m for m, c in cs.items() if c < 0]
            off = [m for m, c in cs.items() if c > 0]
        elif c0 + sum(max(c, 0) for c in cs.values()) == 0:
            on = [m for m, c in cs.items() if c > 0]
            off = [m for m, c in cs.items() if c < 0]
        else:
            return None
        if len(off) > 6:
            return None
        out = const(1)
        for m in on:
            out = self.mul(out, Poly({m: 1}))
        for m in off:
            out = self.mul(out, const(1) - Poly({m: 1}))
        return out

    def boolfn(self, at, fn):
        out = ZERO
        for bits in range(1 << len(at)):
            on = {a for j, a in enumerate(at) if bits >> j & 1}
            if fn(lambda q: sum(c for m, c in q.d.items() if all(a in on for a in m))):
                t = const(1)
                for a in at:
                    t = self.mul(t, self.var(a) if a in on else const(1) - self.var(a))
                out = out + t
        return out

    def lt0(self, p, lo=None, hi=None):
        """Polynomial (0/1) of p < 0."""
        l, h = self.ivx(p) if len(p.d) <= 48 else self.iv(p)
        lo = l if lo is None else max(l, lo)
        hi = h if hi is None else min(h, hi)
        if hi < 0:
            return const(1)
        if lo >= 0:
            return ZERO
        if lo >= -1 and hi <= 0:
            return -p
        r = self.negreg.get(p)
        if r is not None and r[2]:
            return const(1) - self.eq0(r[0])
        at = p.atoms()
        if len(at) <= 4 and all(a in self.boolset for a in at):
            return self.boolfn(sorted(at), lambda f: f(p) < 0)
        g = 0
        for m, c in p.d.items():
            if m:
                g = gcd(g, c)
                if g == 1:
                    break
        if g > 1:                          # g * q + d < 0 just when q + floor(d / g) < 0
            q = Poly({m: c // g for m, c in p.d.items() if m})
            return self.lt0(q + const(p.d.get((), 0) // g))
        return self.var(self.atom("lt", p, 0, 1, isbool=True))

    def subst(self, p, m):
        """Substitute atoms (id -> Poly) in p (top level only)."""
        if not any(a in m for a in p.atoms()):
            return p
        out = ZERO
        for mono, c in p.d.items():
            t = const(c)
            rest = []
            for a in mono:
                if a in m:
                    t = self.mul(t, m[a])
                else:
                    rest.append(a)
            if rest:
                t = self.mul(t, Poly({tuple(rest): 1}))
            out = out + t
        return out

    def show(self, p, limit=6):
        if not p.d:
            return "0"
        parts = []
        for m, c in sorted(p.d.items(), key=lambda x: (len(x[0]), x[0]))[:limit]:
            names = "*".join(self.aname(a) for a in m)
            parts.append(f"{c}*{names}" if names else str(c))
        s = " + ".join(parts)
        if len(p.d) > limit:
            s += f" + ... ({len(p.d)} terms)"
        return s

    def aname(self, i, depth=0):
        a = self.at[i]
        if a.name:
            return a.name
        if a.kind == "q" and depth < 1:
            q, k = a.data
            if len(q.d) <= 3:
                return f"floor(({self.show(q, 3)})/2^{k})"
            return f"floor(...#{i}/2^{k})"
        return f"{a.kind}#{i}"


def ivmul(a, b, c, d):
    if a >= 0 and c >= 0:
        return a * c, b * d
    x = (a * c, a * d, b * c, b * d)
    return min(x), max(x)
