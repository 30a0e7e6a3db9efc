"""Canonicality: the limbs denote an integer in [0, p) with every lower limb in [0, 2^w).

The value V = sum limb_i 2^(w i) is an integer polynomial over input limbs and floor symbols; the intermediate
carries cancel in it, so that only the carries out of the top remain.  Those have a handful of possible values
each, and fixing one, q = c for q = floor(B / 2^k), says exactly c 2^k <= B < (c+1) 2^k.  The values are fixed one
after the other in the order of definition, and under each combination that is not contradictory the interval of V
must lie within [0, p).
"""
from dom import Poly, ZERO, const

LEAVES = 20000
WIDE = 12


def prove(dom, fi, limbs):
    """None when canonical, otherwise the reason it is not shown."""
    for i, x in enumerate(limbs[:-1]):
        lo, hi = x.lo, x.hi
        if lo < 0 or hi >> fi.w:
            l, h = dom.ivx(x.p)
            lo, hi = max(lo, l), min(hi, h)
        if lo < 0 or hi >> fi.w:
            return "limb %d can be in [%s, %s], outside [0, 2^%d)" % (i, _h(lo), _h(hi), fi.w)
    V = ZERO
    for i, x in enumerate(limbs):
        V = V + x.p.scale(1 << (fi.w * i))
    def leaf(env):
        W = dom.subst(V, env)
        lo, hi = dom.ivx(W)
        if 0 <= lo and hi < fi.p:
            return None
        return "with %s the value can be in [%s, %s], outside [0, p)" % (
            ", ".join("%s=%d" % (dom.aname(a), v.const()) for a, v in env.items()) or "no carry", _h(lo), _h(hi))
    return cases(dom, fi, V.atoms(), leaf)


def cases(dom, fi, roots, leaf, limit=LEAVES):
    """Fix the carries below the atoms `roots` in every way that is not contradictory; the first complaint of leaf."""
    order = []
    seen = set()
    memo = {}

    def inner(a):
        if a not in memo:
            memo[a] = inner_(dom, a, fi.N)
        return memo[a]

    def collect(p):
        for a in sorted(p.atoms() if type(p) is Poly else p):
            add(a)

    def add(a):
        at = dom.at[a]
        if a in seen or at.kind not in ("q", "eq", "lt"):
            return
        seen.add(a)
        collect(at.data[0] if at.kind == "q" else at.data)
        for b in inner(a):
            add(b)
        lo, hi = dom.atom_iv(a)
        if hi - lo <= WIDE:
            order.append(a)
    collect(roots)
    order.sort()
    return go(dom, roots, order, 0, {}, {"leaves": 0, "limit": limit}, inner, leaf)


def go(dom, roots, order, i, env, st, inner, leaf):
    while i < len(order) and order[i] not in live(dom, roots, inner):
        i += 1
    if i == len(order):
        st["leaves"] += 1
        if st["leaves"] > st["limit"]:
            return "too many carry combinations"
        return leaf(env)
    a = order[i]
    at = dom.at[a]
    lo, hi = dom.atom_iv(a)
    B = at.data[0] if at.kind == "q" else at.data
    if at.kind == "q":
        k = at.data[1]
        for b in inner(a):        # floor((2^j Y + Q)/2^k) = floor((Y + floor(Q/2^j))/2^(k-j))
            if b in env and at.data[1] == k:
                Q, j = dom.at[b].data
                B = Poly({m: c >> j for m, c in (B - Q).d.items()}) + env[b]
                k -= j
    B = dom.subst(B, env)
    bl, bh = dom.ivx(B)
    if at.kind == "q":
        lo, hi = max(lo, bl >> k), min(hi, bh >> k)
    for c in range(lo, hi + 1):
        if at.kind == "q":
            fl, fh = c << k, ((c + 1) << k) - 1
        elif at.kind == "eq":
            if c:
                fl, fh = 0, 0
            else:
                fl, fh = (1, bh) if bl == 0 else (bl, -1) if bh == 0 else (bl, bh)
        else:
            fl, fh = (bl, min(bh, -1)) if c else (max(bl, 0), bh)
        if fl > bh or fh < bl:
            continue
        dom.scopes.append(({}, {}))
        try:
            if not B.is_const():
                dom.fact(B, fl, fh)
            dom.fact(dom.var(a), c, c)
            env[a] = const(c)
            r = go(dom, roots, order, i + 1, env, st, inner, leaf)
        finally:
            dom.scopes.pop()
            env.pop(a, None)
        if r is not None:
            return r
    return None


def inner_(dom, a, N):
    """The floor symbol whose definition was flattened into that of a, if any (as a list)."""
    at = dom.at[a]
    if at.kind != "q":
        return []
    B, k = at.data
    best = None
    for b in range(a):
        bt = dom.at[b]
        if bt.kind != "q" or bt.data[1] >= k:
            continue
        Q, j = bt.data
        pref = (k - j == N, j)         # a carry out of the whole value is the most useful one
        if best is not None and pref <= best[0]:
            continue
        if not any(m and m in B.d and B.d[m] != c for m, c in Q.d.items()):
            continue
        if all(c & ((1 << j) - 1) == 0 for c in (B - Q).d.values()):
            best = (pref, b)
    return [best[1]] if best else []


def live(dom, roots, inner):
    """Atoms still reachable from the roots (through the definitions of the unfixed ones)."""
    out = set()
    todo = list(roots)
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        at = dom.at[a]
        if at.kind == "q":
            todo += at.data[0].atoms()
            todo += inner(a)
        elif at.kind in ("eq", "lt"):
            todo += at.data.atoms()
    return out


def _h(x):
    return hex(x)
