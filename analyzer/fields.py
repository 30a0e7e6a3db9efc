"""Recognition of the crate's field types, curve types and constants from the extracted program."""
import re
from interp import Agg, FEV, IntV, Unsupported
from dom import const


class FieldInfo:
    def __init__(self, prog, name, tid, N, C):
        self.prog, self.name, self.tid, self.N, self.C = prog, name, tid, N, C
        self.p = (1 << N) - C
        self.short = name.split("::")[-1].lower().replace("mod_", "")
        self.leaves = []
        self._shape(tid, ())
        self.L = len(self.leaves)
        self.w = None
        self.masktid = None
        self.consts = {}
        self.box = None
        self.top = None
        self.objs = {}

    def _shape(self, tid, path):
        t = self.prog.types[tid]
        k = t["k"]
        if k == "int":
            self.leaves.append((path, t["bits"], t["signed"]))
        elif k == "array":
            for i in range(t["len"]):
                self._shape(t["elem"], path + (i,))
        elif k == "tuple":
            for i, f in enumerate(t["fields"]):
                self._shape(f, path + (i,))
        elif k == "adt" and t["adt"] == "Struct":
            for i, f in enumerate(t["variants"][0]["fields"]):
                if self.prog.types[f].get("size", 1):
                    self._shape(f, path + (i,))
        else:
            raise Unsupported("field representation " + t.get("str", "?"))

    def build(self, prog, limbs, tid=None):
        it = iter(limbs)

        def mk(tid):
            t = self.prog.types[tid]
            k = t["k"]
            if k == "int":
                return next(it)
            if k == "array":
                return Agg(tuple(mk(t["elem"]) for _ in range(t["len"])))
            if k == "tuple":
                return Agg(tuple(mk(f) for f in t["fields"]))
            fs = t["variants"][0]["fields"]
            return Agg(tuple(mk(f) if self.prog.types[f].get("size", 1) else Agg(()) for f in fs))
        return mk(self.tid if tid is None else tid)

    def limbs_in(self, v):
        out = []

        def go(v):
            if type(v) is IntV:
                out.append(v)
            elif type(v) is Agg:
                for x in v.f:
                    go(x)
            else:
                out.append(v)
        go(v)
        if len(out) != self.L:
            raise Unsupported("field element %r" % (v,))
        return out

    def setw(self, limbs):
        """Radix exponent such that sum m_i 2^(w i) is the modulus."""
        for w in range(8, 64):
            if sum(x << (w * i) for i, x in enumerate(limbs)) == self.p:
                self.w = w
                break
        else:
            self.w = limbs[1].bit_length() if len(limbs) > 1 else 64
        self.top = self.N - self.w * (self.L - 1)       # bits of the top limb of a canonical value
        self.cbox = [(0, (1 << self.w) - 1)] * (self.L - 1) + [(0, (1 << self.top) - 1)]

    def value(self, limbs):
        return sum(x << (self.w * i) for i, x in enumerate(limbs))

    def is_canonical(self, ints):
        return all(0 <= x < (1 << self.w) for x in ints[:-1]) and 0 <= ints[-1] and self.value(ints) < self.p

    def canon_limbs(self, v):
        v %= self.p
        out = []
        for i in range(self.L - 1):
            out.append(v & ((1 << self.w) - 1))
            v >>= self.w
        out.append(v)
        return out


class CurveInfo:
    def __init__(self, name, ptid, fi, order):
        self.name, self.ptid, self.fi, self.order = name, ptid, fi, order
        self.short = name.split("::")[-1]


FIELD_RE = re.compile(r"^Mod_e(\d+)_(\d+)$")
# primes of the nine fields (SafeCurves): 2^N - C
FIELDS = {"e221_3": (221, 3), "e222_117": (222, 117), "e251_9": (251, 9), "e255_19": (255, 19),
          "e382_105": (382, 105), "e383_187": (383, 187), "e414_17": (414, 17), "e511_187": (511, 187),
          "e521_1": (521, 1)}
# Edwards curves x^2 + y^2 = 1 + d x^2 y^2 published at safecurves.cr.yp.to
CURVES = {"E222": ("e222_117", 160102), "Curve1174": ("e251_9", -1174), "E382": ("e382_105", -67254),
          "Curve41417": ("e414_17", 3617), "E521": ("e521_1", -376014)}


class Info:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}          # tid -> FieldInfo
        self.masks = {}           # tid -> FieldInfo
        self.curves = {}          # tid of the point type -> CurveInfo
        self.by_short = {}
        byname = {}
        for i, t in enumerate(prog.types):
            if t["k"] == "adt" and t.get("local", True):
                nm = t.get("str", "")
                last = nm.split("::")[-1]
                m = FIELD_RE.match(last)
                if m:
                    fi = FieldInfo(prog, nm, i, int(m.group(1)), int(m.group(2)))
                    self.fields[i] = fi
                    byname[last] = fi
                    self.by_short[fi.short] = fi
        for i, t in enumerate(prog.types):
            if t["k"] == "adt":
                last = t.get("str", "").split("::")[-1]
                if last.endswith("_Mask") and last[:-5] in byname:
                    fi = byname[last[:-5]]
                    fi.masktid = i
                    self.masks[i] = fi
        for i, t in enumerate(prog.types):
            if t["k"] == "adt" and t.get("str", "").split("<")[0].split("::")[-1] == "EdwardsExtended" and \
                    t["adt"] == "Struct" and t.get("args") and t["args"][0][0] == "t":
                fs = t["variants"][0]["fields"]
                names = t["variants"][0]["names"]
                fi = self.fields.get(fs[0]) if fs else None
                if fi is None or any(f != fs[0] for f in fs) or sorted(names) != ["t", "x", "y", "z"]:
                    continue
                self.curves[i] = CurveInfo(prog.types[t["args"][0][1]]["str"], i, fi, list(names))
        self.by_curve = {c.short: c for c in self.curves.values()}
        self.const_items(byname)

    def const_items(self, byname):
        prog = self.prog
        for c in prog.items["consts"]:
            v = c.get("value")
            if not v or "alloc" not in v:
                continue
            fi = self.fields.get(v["ty"])
            if fi is None:
                continue
            leaves = decode_ints(prog, v["ty"], v["alloc"]["bytes"])
            fi.consts[c["path"]] = (leaves, c)
        for fi in self.fields.values():
            m = next((l for pth, (l, _) in fi.consts.items() if pth.split("::")[-1] == "MODULUS"), None)
            if m is None:
                raise Unsupported("no MODULUS constant for " + fi.name)
            fi.setw(m)


def decode_ints(prog, tid, hx):
    out = []

    def go(tid, off):
        t = prog.types[tid]
        k = t["k"]
        if k == "int":
            n = t["bits"] // 8
            out.append(int.from_bytes(bytes.fromhex(hx[2 * off:2 * (off + n)]), prog.endian, signed=t["signed"]))
        elif k == "array":
            es = t.get("stride") or prog.types[t["elem"]]["size"]
            for i in range(t["len"]):
                go(t["elem"], off + i * es)
        elif k in ("tuple",):
            for f, o in zip(t["fields"], t["offsets"]):
                go(f, off + o)
        elif k == "adt" and t["adt"] == "Struct":
            fs = t["variants"][0]["fields"]
            for f, o in zip(fs, t.get("offsets") or [0] * len(fs)):
                if prog.types[f].get("size", 1):
                    go(f, off + o)
        else:
            raise Unsupported("constant of type " + t.get("str", "?"))
    go(tid, 0)
    return out
