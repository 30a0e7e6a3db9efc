"""Information flow in optimised machine code.

The release build is disassembled and every exported entry point (machine/roots.rs) is interpreted over an abstract
domain: a register, flag or memory cell is a known integer, a pointer (region, offset), PUB (an unknown value that does
not depend on secrets) or SEC (anything else).  Loops whose trip count is known are unrolled, branches on PUB are followed
both ways, and a branch, an address, a count or a divisor that is SEC is a violation."""
import multiprocessing
import os
import re
import shutil
import struct
import subprocess
import tempfile
import time

import extract

PUB, SEC = "PUB", "SEC"
M64 = (1 << 64) - 1
R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REGS = {}
for _i, _r in enumerate(R64):
    REGS[_r] = (_i, 8)
    if _i < 8:
        REGS["e" + _r[1:]] = (_i, 4)
        REGS[_r[1:]] = (_i, 2)
    else:
        REGS[_r + "d"] = (_i, 4)
        REGS[_r + "w"] = (_i, 2)
        REGS[_r + "b"] = (_i, 1)
for _i, _r in enumerate(["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"]):
    REGS[_r] = (_i, 1)
HIGH = {"ah": 0, "ch": 1, "dh": 2, "bh": 3}
ARGS = [7, 6, 2, 1, 8, 9]
RAX, RCX, RDX, RSP, RBP, RSI, RDI = 0, 1, 2, 4, 5, 6, 7
SIZES = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16, "OWORD": 16, "TBYTE": 10}


class Leak(Exception):
    pass


class Undecided(Exception):
    pass


class Elf:
    """Sections, symbols and dynamic relocations of the shared object."""

    def __init__(self, path):
        b = self.b = open(path, "rb").read()
        if b[:5] != b"\x7fELF\x02":
            raise Undecided("not a 64-bit ELF object")
        shoff, = struct.unpack_from("<Q", b, 40)
        entsize, num, stridx = struct.unpack_from("<HHH", b, 58)
        self.secs = []
        for i in range(num):
            n, t, f, addr, off, size, link, info, al, es = struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * entsize)
            self.secs.append([n, t, f, addr, off, size, link, es])
        so = self.secs[stridx][4]
        for s in self.secs:
            s[0] = b[so + s[0]:b.index(b"\0", so + s[0])].decode()
        self.syms, self.reloc, self.funcs = {}, {}, []
        tabs = {}
        for i, s in enumerate(self.secs):
            if s[1] in (2, 11):
                st = self.secs[s[6]]
                tab = []
                for o in range(s[4], s[4] + s[5], 24):
                    n, info, oth, shn, val, size = struct.unpack_from("<IBBHQQ", b, o)
                    name = b[st[4] + n:b.index(b"\0", st[4] + n)].decode()
                    tab.append((name, val if shn else None))
                    if shn and name and info & 15 == 2:
                        self.syms[name] = val
                        self.funcs.append((val, size, name))
                tabs[i] = tab
        for s in self.secs:
            if s[1] == 4:
                for o in range(s[4], s[4] + s[5], 24):
                    where, info, add = struct.unpack_from("<QQq", b, o)
                    t, sy = info & 0xffffffff, info >> 32
                    if t == 8:
                        self.reloc[where] = add & M64
                    elif t in (1, 6, 7):
                        name, val = tabs[s[6]][sy]
                        self.reloc[where] = (val + add) if val is not None else ("ext", name.split("@")[0])
        self.funcs.sort()
        self.starts = [f[0] for f in self.funcs]
        self.starts_set = set(self.starts)
        self.load = [s for s in self.secs if s[2] & 2 and s[1] != 8]
        self.bss = [s for s in self.secs if s[2] & 2 and s[1] == 8]

    def name(self, addr):
        import bisect
        i = bisect.bisect_right(self.starts, addr) - 1
        while i >= 0 and i >= bisect.bisect_right(self.starts, addr) - 4:
            v, size, n = self.funcs[i]
            if v <= addr < max(v + size, v + 1):
                return n
            i -= 1
        return "?"

    def read(self, addr, size):
        if size == 8 and addr in self.reloc:
            return self.reloc[addr]
        for s in self.load:
            if s[3] <= addr and addr + size <= s[3] + s[5]:
                return int.from_bytes(self.b[s[4] + addr - s[3]:s[4] + addr - s[3] + size], "little")
        return PUB

    def writable(self, addr):
        return any(s[3] <= addr < s[3] + s[5] and s[2] & 1 for s in self.load + self.bss)


def taint(*vs):
    for v in vs:
        if v is SEC:
            return SEC
        if type(v) is list:                                # byte register parts
            if SEC in v:
                return SEC
    return PUB


class Mem:
    """Cells of one region: offset -> (size, value); anything not written has the default value."""
    __slots__ = ("c", "default", "elf", "lo", "hi")

    def __init__(self, default, elf=None):
        self.c, self.default, self.elf = {}, default, elf

    def copy(self):
        m = Mem(self.default, self.elf)
        m.c = dict(self.c)
        return m

    def byte(self, o):
        for k in range(8):
            h = self.c.get(o - k)
            if h is not None and h[0] > k:
                v = h[1]
                if type(v) is int:
                    return (v >> (8 * k)) & 255
                return SEC if v is SEC else PUB
        if self.elf is not None:
            return self.elf.read(o, 1)
        return self.default

    def load(self, o, size):
        h = self.c.get(o)
        if h is not None and h[0] == size:
            return h[1]
        if not self.c and self.elf is None:
            return self.default
        if self.elf is not None and all(self.c.get(o - k, (0,))[0] <= k for k in range(8)) and \
                not any(o + k in self.c for k in range(1, size)):
            return self.elf.read(o, size)
        bs = [self.byte(o + i) for i in range(size)]
        if SEC in bs:
            return SEC
        if all(type(x) is int for x in bs):
            return sum(x << (8 * i) for i, x in enumerate(bs))
        return PUB

    def store(self, o, size, v):
        c = self.c
        h = c.get(o)
        if h is not None and h[0] == size:
            c[o] = (size, v)
            return
        if c:
            for k in range(-7, size):
                h = c.get(o + k)
                if h is not None and h[0] + k > 0:
                    keep = [(o + k + j, self.byte(o + k + j)) for j in range(h[0])
                            if not o <= o + k + j < o + size]
                    del c[o + k]
                    for a, x in keep:
                        c[a] = (1, x)
        c[o] = (size, v)

    def all(self):
        r = [v for _, v in self.c.values()] + [self.default]
        return taint(*r)


class State:
    __slots__ = ("r", "x", "cf", "zf", "sf", "of", "mem", "heap", "pc", "pc_next")

    def copy(self):
        s = State()
        s.r, s.x = list(self.r), [list(v) for v in self.x]
        s.cf, s.zf, s.sf, s.of, s.heap, s.pc = self.cf, self.zf, self.sf, self.of, self.heap, self.pc
        s.mem = {k: m.copy() for k, m in self.mem.items()}
        return s


def parse_operand(t):
    """-> ('r', index, size) | ('h', index) | ('x', index) | ('i', value) | ('m', size, base, index, scale, disp)"""
    t = t.strip()
    if t in REGS:
        return ("r",) + REGS[t]
    if t in HIGH:
        return ("h", HIGH[t])
    m = re.match(r"xmm(\d+)$", t)
    if m:
        return ("x", int(m.group(1)))
    if re.match(r"-?(0x[0-9a-f]+|\d+)$", t):
        return ("i", int(t, 0) & M64)
    m = re.match(r"(?:(\w+) PTR )?(?:([a-z]s):)?\[(.*)\]$", t)
    if m:
        size, seg, e = m.groups()
        if seg not in (None, "ds", "es", "ss", "cs"):
            return ("u", t)
        base = index = None
        scale, disp = 1, 0
        for sg, term in re.findall(r"([+-]?)([^+-]+)", e):
            q = re.match(r"(\w+)\*(\d)$", term)
            if q:
                index, scale = term_reg(q.group(1)), int(q.group(2))
            elif term == "rip":
                base = "rip"
            elif term in REGS or term in ("riz",):
                if base is None:
                    base = term_reg(term)
                else:
                    index, scale = term_reg(term), 1
            else:
                disp += (-1 if sg == "-" else 1) * int(term, 0)
        return ("m", SIZES.get(size, 8) if size else None, base, index, scale, disp)
    return ("u", t)


def term_reg(t):
    if t == "riz":
        return None
    i, s = REGS[t]
    if s != 8:
        raise Undecided("address computed in a narrow register")
    return i


class Code:
    def __init__(self, so):
        self.so = so
        self.elf = Elf(so)
        out = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", so], capture_output=True, text=True)
        if out.returncode:
            raise Undecided("objdump: " + out.stderr[-300:])
        self.line, self.next = {}, {}
        prev = None
        for l in out.stdout.splitlines():
            m = re.match(r"\s+([0-9a-f]+):\t(.*)$", l)
            if not m:
                if l.endswith(":") or not l.strip():
                    pass
                continue
            a = int(m.group(1), 16)
            t = m.group(2)
            if prev is not None:
                self.next[prev] = a
            self.line[a] = t
            prev = a
        self.plt = {}
        for m in re.finditer(r"^([0-9a-f]+) <([^>@]+)@plt>:", out.stdout, re.M):
            self.plt[int(m.group(1), 16)] = m.group(2)
        self.dec = {}

    def decode(self, a):
        d = self.dec.get(a)
        if d is None:
            t = self.line.get(a)
            if t is None:
                raise Undecided("execution reaches %#x, which is not code" % a)
            t = t.split("#")[0].strip()
            t = re.sub(r"\s*<[^>]*>\s*$", "", t)
            while True:
                w = t.split(None, 1)
                if w[0] in ("lock", "notrack", "bnd", "data16", "cs", "ds", "rex.W") and len(w) > 1:
                    t = w[1]
                else:
                    break
            op = w[0]
            if op in ("rep", "repz", "repnz", "repe", "repne"):
                x = w[1].split()
                op = "rep " + x[0]
                if len(x) > 1 and x[0][-1] == "s":         # the width is in the operands
                    op += {"BYTE": "b", "WORD": "w", "DWORD": "d", "QWORD": "q"}.get(x[1].split(",")[-1], "?")
                ops = []
            else:
                ops = [("i", int(x, 16)) if op[0] in "jc" and re.match(r"[0-9a-f]+$", x) and x not in REGS and x not in HIGH
                       and (op[0] == "j" or op == "call") else parse_operand(x) for x in w[1].split(",")] \
                    if len(w) > 1 else []
            d = self.dec[a] = (op, ops, self.next.get(a))
        return d

    def where(self, a):
        r = subprocess.run(["addr2line", "-e", self.so, "-f", "-i", "-C", "%#x" % a], capture_output=True, text=True)
        ls = r.stdout.splitlines()
        out = []
        for f, l in zip(ls[::2], ls[1::2]):
            l = re.sub(r" \(discriminator.*", "", l)
            l = re.sub(r"^.*/(src/(?:field|curve)/)", r"\1", l) if "/src/" in l else l
            out.append((f, l))
        mine = [l for f, l in out if l.startswith("src/")]
        return (mine or [l for _, l in out] or ["?"])[0], " < ".join(f for f, _ in out[:4])


COND = {"o": "O", "no": "O", "b": "C", "c": "C", "nae": "C", "ae": "C", "nb": "C", "nc": "C", "e": "Z", "z": "Z", "ne": "Z",
        "nz": "Z", "be": "CZ", "na": "CZ", "a": "CZ", "nbe": "CZ", "s": "S", "ns": "S", "l": "SO", "nge": "SO", "ge": "SO",
        "nl": "SO", "le": "ZSO", "ng": "ZSO", "g": "ZSO", "nle": "ZSO", "p": "P", "np": "P", "pe": "P", "po": "P"}
NOEFFECT = ("nop", "endbr64", "prefetcht0", "prefetchnta", "mfence", "lfence", "sfence", "pause", "fnop", "xchg ax,ax", "nopw",
            "nopl", "cs", "vzeroupper", "emms")
PANIC = re.compile(r"panic|slice_(start|end|index)|unwrap_failed|expect_failed|copy_from_slice|len_mismatch|handle_alloc_error|"
                   r"capacity_overflow|abort|Unwind_Resume|_fail")


class Machine:
    def __init__(self, code, steps=60_000_000, paths=256):
        self.code, self.elf = code, code.elf
        self.steps, self.paths = steps, paths
        self.counts = {"instructions": 0, "conditional_jumps": 0, "memory_accesses": 0, "divisions": 0, "paths": 0,
                       "calls": 0}
        self.funcs = set()
        self.jumps = set()

    # ---- registers
    def get(self, s, o):
        k = o[0]
        if k == "r":
            v = s.r[o[1]]
            n = o[2]
            if type(v) is list:
                if n == 1:
                    return v[0]
                lo, rest = v
                if type(lo) is int and type(rest) is int:
                    v = (rest & ~255) | lo
                else:
                    return taint(lo, rest)
            if n == 8:
                return v
            if type(v) is int:
                return v & ((1 << (8 * n)) - 1)
            return SEC if v is SEC else PUB
        if k == "i":
            return o[1]
        if k == "m":
            return self.load(s, o, o[1])
        if k == "h":
            v = s.r[o[1]]
            if type(v) is list:
                v = v[1]
            return (v >> 8) & 255 if type(v) is int else (SEC if v is SEC else PUB)
        if k == "x":
            return taint(*s.x[o[1]])
        raise Undecided("operand " + str(o))

    def set(self, s, o, v, size=None):
        k = o[0]
        if k == "r":
            n = o[2]
            if n == 8:
                s.r[o[1]] = v
            elif n == 4:
                s.r[o[1]] = v & 0xffffffff if type(v) is int else (SEC if v is SEC else PUB)
            elif n == 1:
                old = s.r[o[1]]
                if type(old) is list:
                    old = old[1]
                if type(v) is int:
                    v &= 255
                    if type(old) is int:
                        s.r[o[1]] = (old & ~255) | v
                        return
                elif v is not SEC:
                    v = PUB
                s.r[o[1]] = [v, old if type(old) is int or old is SEC else PUB]
            else:
                old = s.r[o[1]]
                if type(old) is int and type(v) is int:
                    s.r[o[1]] = (old & ~0xffff) | (v & 0xffff)
                else:
                    s.r[o[1]] = taint(old, v)
        elif k == "m":
            self.store(s, o, o[1] or size, v)
        elif k == "h":
            old = s.r[o[1]]
            s.r[o[1]] = taint(old, v)
        elif k == "x":
            s.x[o[1]] = [taint(v)] * 2
        else:
            raise Undecided("operand " + str(o))

    # ---- memory
    def addr(self, s, o):
        _, _, base, index, scale, disp = o
        if base == "rip":
            b = s.pc_next
        elif base is None:
            b = 0
        else:
            b = s.r[base]
            if type(b) is list:
                b = self.get(s, ("r", base, 8))
        if index is not None:
            i = s.r[index]
            if type(i) is list:
                i = self.get(s, ("r", index, 8))
            if i is SEC or b is SEC:
                return SEC
            if type(i) is int:
                i = i * scale
            elif scale != 1:
                i = PUB
            b = self.plus(b, i)
        if disp:
            b = self.plus(b, disp)
        return b

    @staticmethod
    def plus(a, b):
        if type(a) is int:
            if type(b) is int:
                return (a + b) & M64
            a, b = b, a
        if a is SEC or b is SEC:
            return SEC
        if type(a) is tuple:
            if type(b) is int:
                if a[1] is None:
                    return a
                if b >= 1 << 63:
                    b -= 1 << 64
                return (a[0], a[1] + b)
            if b is PUB:
                return (a[0], None)
            return PUB
        if type(b) is tuple:
            return (b[0], None)
        return PUB

    def place(self, s, o):
        a = self.addr(s, o) if o[0] == "m" else o
        if a is SEC:
            raise Leak("the address of a memory access")
        self.counts["memory_accesses"] += 1
        return a

    def at(self, s, a, size):
        if type(a) is tuple:
            m = s.mem[a[0]]
            if a[1] is None:
                return m.all()
            if size == 16:
                return None
            return m.load(a[1], size)
        if type(a) is int:
            return s.mem["image"].load(a, size)
        raise Undecided("a load through an unknown pointer")

    def load(self, s, o, size):
        return self.at(s, self.place(s, o), size)

    def put(self, s, a, size, v):
        if type(a) is tuple:
            if a[1] is None:
                m = s.mem[a[0]]
                if a[0] == "stack":
                    raise Undecided("a store at an unknown offset of the stack")
                for k in list(m.c):
                    h = m.c[k]
                    m.c[k] = (h[0], taint(h[1], v))
                m.default = taint(m.default, v)
                return
            if type(v) is list:
                v = taint(*v)
            s.mem[a[0]].store(a[1], size, v & ((1 << (8 * size)) - 1) if type(v) is int else
                              (v if size == 8 else taint(v)))
        elif type(a) is int and self.elf.writable(a):
            s.mem["image"].store(a, size, v)
        else:
            raise Undecided("a store through an unknown pointer")

    def store(self, s, o, size, v):
        self.put(s, self.place(s, o), size, v)

    def load16(self, s, o):
        a = self.place(s, o)
        return [self.at(s, a, 8), self.at(s, self.plus(a, 8), 8)]

    def store16(self, s, o, v):
        a = self.place(s, o)
        self.put(s, a, 8, v[0])
        self.put(s, self.plus(a, 8), 8, v[1])

    # ---- flags
    def flags(self, s, v):
        s.cf = s.zf = s.sf = s.of = v

    def logic(self, s, r, n):
        if type(r) is int:
            s.cf = s.of = 0
            s.zf, s.sf = int(r == 0), (r >> (8 * n - 1)) & 1
        else:
            t = SEC if r is SEC else PUB
            s.cf = s.of = 0
            s.zf = s.sf = t

    def compare(self, s, a, b, n):
        """Flags of a - b; returns the difference."""
        if type(a) is int and type(b) is int:
            m = (1 << (8 * n)) - 1
            a &= m
            b &= m
            r = (a - b) & m
            top = 8 * n - 1
            s.cf, s.zf, s.sf = int(a < b), int(r == 0), r >> top
            s.of = ((a ^ b) & (a ^ r)) >> top & 1
            return r
        if a is SEC or b is SEC:
            self.flags(s, SEC)
            return SEC
        if type(a) is tuple or type(b) is tuple:
            if type(a) is tuple and type(b) is tuple:
                if a[0] == b[0] and a[1] is not None and b[1] is not None:
                    d = a[1] - b[1]
                    s.cf, s.zf, s.sf, s.of = int(d < 0), int(d == 0), int(d < 0), 0
                    return d & M64
                self.flags(s, PUB)
                if a[0] != b[0]:
                    s.zf = 0
                return PUB
            self.flags(s, PUB)
            if b == 0 or a == 0:
                s.zf = 0
            if type(a) is tuple and type(b) is int:
                return self.plus(a, -b)
            return (a[0], None) if type(a) is tuple else PUB
        self.flags(s, PUB)
        return PUB

    def cond(self, s, cc):
        """Truth of a condition: 0/1, PUB or SEC."""
        use = COND.get(cc)
        if use is None:
            raise Undecided("condition " + cc)
        if use == "Z":
            v = s.zf
            return v if type(v) is str else (v if cc in ("e", "z") else 1 - v)
        if use == "C":
            v = s.cf
            return v if type(v) is str else (v if cc in ("b", "c", "nae") else 1 - v)
        if use == "P":
            return taint(s.zf, s.cf, s.sf)
        f = [dict(C=s.cf, Z=s.zf, S=s.sf, O=s.of)[u] for u in use]
        if SEC in f:
            return SEC
        if PUB in f:
            return PUB
        if use == "O":
            v = f[0]
        elif use == "S":
            v = f[0]
        elif use == "CZ":
            v = f[0] | f[1]
        elif use == "SO":
            v = f[0] ^ f[1]
        else:
            v = f[0] | (f[1] ^ f[2])
        return v if cc in ("o", "s", "be", "na", "l", "nge", "le", "ng") else 1 - v

    # ---- control
    def run(self, name, args, regions):
        """Interpret an exported function; args are abstract values of the integer argument registers."""
        s = State()
        s.r = [PUB] * 16
        s.x = [[PUB, PUB] for _ in range(16)]
        self.flags(s, PUB)
        s.heap = 0
        s.mem = {"stack": Mem(PUB), "image": Mem(PUB, self.elf)}
        for k, d in regions.items():
            s.mem[k] = Mem(d)
        for i, v in zip(ARGS, args):
            s.r[i] = v
        s.r[RSP] = ("stack", 0)
        s.mem["stack"].store(0, 8, 0)
        s.pc = self.elf.syms[name]
        work, returned = [s], 0
        trace = None
        while work:
            s = work.pop()
            self.counts["paths"] += 1
            if self.counts["paths"] > self.paths:
                raise Undecided("more than %d paths" % self.paths)
            try:
                returned += self.path(s, work)
            except (Leak, Undecided) as e:
                e.pc = s.pc
                raise
        if not returned:
            raise Undecided("no path through %s returns" % name)

    def path(self, s, work):
        code = self.code
        dec = code.dec
        count = self.counts
        n = 0
        pc = s.pc
        try:
            while True:
                s.pc = pc
                d = dec.get(pc)
                if d is None:
                    d = code.decode(pc)
                op, ops, nxt = d
                n += 1
                if n > self.steps:
                    raise Undecided("more than %d instructions" % self.steps)
                h = HANDLERS.get(op)
                if h is not None:
                    s.pc_next = nxt
                    h(self, s, ops)
                    pc = nxt
                elif op == "call":
                    count["calls"] += 1
                    t = self.target(s, ops[0], nxt)
                    if type(t) is int and t in code.plt:
                        t = ("ext", code.plt[t])
                    if type(t) is int:
                        nm = self.elf.name(t)
                        self.funcs.add(t)
                        if PANIC.search(nm):
                            return 0
                        ext = self.known(nm)
                        if ext is not None:
                            ext(s)
                            pc = nxt
                            continue
                        s.r[RSP] = sp = self.plus(s.r[RSP], -8)
                        self.put(s, sp, 8, nxt)
                        pc = t
                    else:
                        if PANIC.search(t[1]):
                            return 0
                        ext = self.known(t[1])
                        if ext is None:
                            raise Undecided("a call of the external function " + t[1])
                        ext(s)
                        pc = nxt
                elif op == "ret":
                    sp = s.r[RSP]
                    t = self.at(s, sp, 8)
                    s.r[RSP] = self.plus(sp, 8)
                    if type(t) is not int:
                        raise Undecided("a return to an unknown address")
                    if t == 0:
                        return 1
                    pc = t
                elif op == "jmp":
                    t = self.target(s, ops[0], nxt)
                    if type(t) is int and t in code.plt:
                        t = ("ext", code.plt[t])
                    nm = t[1] if type(t) is tuple else (self.elf.name(t) if t in self.elf.starts_set else None)
                    if nm is not None:
                        if PANIC.search(nm):
                            return 0
                        ext = self.known(nm)
                        if ext is not None:                # tail call
                            ext(s)
                            sp = s.r[RSP]
                            t = self.at(s, sp, 8)
                            s.r[RSP] = self.plus(sp, 8)
                            if t == 0:
                                return 1
                        elif type(t) is tuple:
                            raise Undecided("a call of the external function " + nm)
                    pc = t
                elif op[0] == "j":
                    count["conditional_jumps"] += 1
                    self.jumps.add(pc)
                    c = self.cond(s, op[1:])
                    if c is SEC:
                        raise Leak("the conditional jump `%s`" % op)
                    t = ops[0][1]
                    if c is PUB:
                        o = s.copy()
                        o.pc = t
                        work.append(o)
                        pc = nxt
                    else:
                        pc = t if c else nxt
                elif op in ("ud2", "hlt", "int3"):
                    return 0
                else:
                    s.pc_next = nxt
                    self.other(s, op, ops)
                    pc = nxt
        finally:
            count["instructions"] += n

    def target(self, s, o, nxt):
        if o[0] == "i":
            return o[1]
        s.pc_next = nxt
        v = self.get(s, o)
        if v is SEC:
            raise Leak("the target of an indirect jump or call")
        if type(v) is int or (type(v) is tuple and v[0] == "ext"):
            return v
        raise Undecided("an indirect jump or call to an unknown address")

    # ---- library functions
    def known(self, name):
        for k, f in LIB:
            if k.search(name):
                return lambda s: f(self, s)
        return None

    # ---- instructions without a handler of their own
    def other(self, s, op, ops):
        if op.startswith("cmov"):
            c = self.cond(s, op[4:])
            v = self.get(s, ops[1])
            old = self.get(s, ops[0])
            if type(c) is int:
                v = v if c else old
            elif c is SEC:
                v = SEC
            elif v != old or type(v) is list:
                v = taint(v, old)
            self.set(s, ops[0], v)
            return
        if op.startswith("set"):
            self.set(s, ops[0], self.cond(s, op[3:]), 1)
            return
        if op in NOEFFECT:
            return
        if op.startswith("rep "):
            return self.rep(s, op[4:])
        if any(o[0] == "u" for o in ops) or not ops or op in ("syscall", "cpuid", "rdtsc", "xgetbv", "int", "enter", "loop"):
            raise Undecided("the instruction `%s`" % op)
        # any other instruction: the destination and the flags depend on all operands
        if ops[0][0] == "x":
            vs = [self.vec(s, o) if o[0] in "x" else [self.get(s, o)] if o[0] != "m" or (o[1] or 16) <= 8
                  else self.load16(s, o) for o in ops]
            flat = [v for q in vs for v in q]
            if op in LANES and all(o[0] == "x" or o[0] == "m" for o in ops) and len(ops) == 2 and all(len(q) == 2 for q in vs):
                s.x[ops[0][1]] = [taint(vs[0][k], vs[1][k]) for k in (0, 1)]
            elif op in ("ucomisd", "ucomiss", "comisd", "comiss", "ptest"):
                self.flags(s, taint(*flat))
            else:
                t = taint(*flat)
                s.x[ops[0][1]] = [t, t]
            return
        vs = []
        for o in ops:
            if o[0] == "x":
                vs += s.x[o[1]]
            elif o[0] == "m" and (o[1] or 8) > 8:
                vs += self.load16(s, o)
            else:
                vs.append(self.get(s, o))
        t = taint(*vs)
        self.set(s, ops[0], t, 8)
        self.flags(s, taint(t, s.cf))

    def vec(self, s, o):
        return s.x[o[1]] if o[0] == "x" else self.load16(s, o)

    def rep(self, s, op):
        n = s.r[RCX]
        if n is SEC:
            raise Leak("the count of `rep %s`" % op)
        w = {"b": 1, "w": 2, "d": 4, "q": 8}.get(op[-1])
        if type(n) is not int or n > 1 << 20 or w is None or op[:4] not in ("stos", "movs"):
            raise Undecided("the instruction `rep %s`" % op)
        for k in range(n):
            d = self.plus(s.r[RDI], k * w)
            if d is SEC:
                raise Leak("the address of a memory access")
            if op[:4] == "stos":
                v = self.get(s, ("r", RAX, w))
            else:
                a = self.plus(s.r[RSI], k * w)
                if a is SEC:
                    raise Leak("the address of a memory access")
                v = self.at(s, a, w)
            self.put(s, d, w, v)
        s.r[RDI] = self.plus(s.r[RDI], n * w)
        if op[:4] == "movs":
            s.r[RSI] = self.plus(s.r[RSI], n * w)
        s.r[RCX] = 0


def width(ops):
    o = ops[0]
    if o[0] == "r":
        return o[2]
    if o[0] == "m":
        return o[1]
    return 1


def h_mov(M, s, ops):
    d, o = ops
    if d[0] == "m" and d[1] is None:
        d = d[:1] + (8,) + d[2:]
    if o[0] == "r" and o[2] >= 4 and type(s.r[o[1]]) is list:
        lo, rest = s.r[o[1]]                               # the low byte is known apart from the rest
        if type(lo) is not int or type(rest) is not int:
            if d[0] == "r":
                s.r[d[1]] = [lo, SEC if rest is SEC else PUB]
            else:
                a, t = M.place(s, d), SEC if rest is SEC else PUB
                M.put(s, a, 1, lo)
                M.put(s, M.plus(a, 1), 1, t)
                M.put(s, M.plus(a, 2), 2, t)
                if o[2] == 8:
                    M.put(s, M.plus(a, 4), 4, t)
            return
    v = M.get(s, o)
    if type(v) is int and o[0] == "i":
        v &= (1 << (8 * width([d]))) - 1
    M.set(s, d, v)


def h_movzx(M, s, ops):
    M.set(s, ops[0], M.get(s, ops[1]))


def h_movsx(M, s, ops):
    v = M.get(s, ops[1])
    if type(v) is int:
        n = 8 * (ops[1][2] if ops[1][0] == "r" else ops[1][1] if ops[1][0] == "m" else 1)
        v &= (1 << n) - 1
        if v >> (n - 1):
            v -= 1 << n
        v &= (1 << (8 * ops[0][2])) - 1
    elif v is not SEC:
        v = PUB
    M.set(s, ops[0], v)


def h_lea(M, s, ops):
    v = M.addr(s, ops[1])
    M.set(s, ops[0], v)


def caller_saved(s):
    for i in (RAX, RCX, RDX, RSI, RDI, 8, 9, 10, 11):
        s.r[i] = PUB


def arith(kind):
    def h(M, s, ops):
        d = ops[0]
        n = width(ops) or 8
        a, b = M.get(s, d), M.get(s, ops[1])
        if kind == "sub":
            if d == ops[1]:
                r = M.compare(s, 0, 0, n)
            else:
                r = M.compare(s, a, b, n)
        elif kind == "add":
            if type(a) is int and type(b) is int:
                m = (1 << (8 * n)) - 1
                a &= m
                b &= m
                r = (a + b) & m
                top = 8 * n - 1
                s.cf, s.zf, s.sf = int(a + b > m), int(r == 0), r >> top
                s.of = (~(a ^ b) & (a ^ r)) >> top & 1
            elif a is SEC or b is SEC:
                r = SEC
                s.cf = s.zf = s.sf = s.of = SEC
            else:
                r = M.plus(a, b) if n == 8 else PUB
                M.flags(s, PUB)
        else:
            if type(a) is int and type(b) is int:
                r = a & b if kind == "and" else a | b if kind == "or" else a ^ b
                r &= (1 << (8 * n)) - 1
            elif kind == "xor" and d == ops[1]:
                r = 0
            elif kind == "and" and (a == 0 or b == 0) and (type(a) is int or type(b) is int):
                r = 0
            elif kind == "or" and d == ops[1]:
                r = a
            elif kind == "and" and d == ops[1]:
                r = a
            elif kind == "and" and type(a) is tuple and n == 8 and type(b) is int and a[0] == "stack" and \
                    a[1] is not None and b > M64 - 4096 and M64 + 1 - b & M64 - b == 0:
                r = (a[0], a[1] - a[1] % (M64 + 1 - b))     # stack realignment
            else:
                r = taint(a, b)
            M.logic(s, r if type(r) is not tuple else PUB, n)
        M.set(s, d, r)
    return h


def h_cmp(M, s, ops):
    M.compare(s, M.get(s, ops[0]), M.get(s, ops[1]), width(ops) or 8)


def h_test(M, s, ops):
    a, b = M.get(s, ops[0]), M.get(s, ops[1])
    if type(a) is int and type(b) is int:
        r = a & b
    elif a == 0 and type(a) is int or b == 0 and type(b) is int:
        r = 0
    elif type(a) is tuple and ops[0] == ops[1]:
        M.flags(s, PUB)
        s.zf = s.cf = s.of = 0
        return
    else:
        r = taint(a, b)
    M.logic(s, r, width(ops) or 8)


def h_inc(delta):
    def h(M, s, ops):
        n = width(ops) or 8
        a = M.get(s, ops[0])
        cf = s.cf
        if type(a) is int:
            m = (1 << (8 * n)) - 1
            r = (a + delta) & m
            s.zf, s.sf, s.of = int(r == 0), r >> (8 * n - 1), int(r == (1 << (8 * n - 1)) - (delta < 0))
        elif type(a) is tuple:
            r = M.plus(a, delta)
            s.zf, s.sf, s.of = 0, PUB, PUB
        else:
            r = SEC if a is SEC else PUB
            s.zf = s.sf = s.of = r
        s.cf = cf
        M.set(s, ops[0], r)
    return h


def h_neg(M, s, ops):
    n = width(ops) or 8
    M.set(s, ops[0], M.compare(s, 0, M.get(s, ops[0]), n))


def h_not(M, s, ops):
    a = M.get(s, ops[0])
    M.set(s, ops[0], ~a & ((1 << (8 * (width(ops) or 8))) - 1) if type(a) is int else taint(a))


def shift(kind):
    def h(M, s, ops):
        n = width(ops) or 8
        a = M.get(s, ops[0])
        c = M.get(s, ops[1]) if len(ops) > 1 else 1
        if type(a) is int and type(c) is int:
            c &= 63 if n == 8 else 31
            w = 8 * n
            m = (1 << w) - 1
            a &= m
            if c == 0:
                r = a
            elif kind == "shl":
                r = (a << c) & m
            elif kind == "shr":
                r = a >> c
            elif kind == "sar":
                r = ((a - (1 << w) if a >> (w - 1) else a) >> c) & m
            else:
                c %= w
                r = ((a << c | a >> (w - c)) if kind == "rol" else (a >> c | a << (w - c))) & m
            if c:
                if kind in ("shl", "shr", "sar"):
                    s.cf = (a << c >> w & 1) if kind == "shl" else (a >> (c - 1) & 1)
                    s.zf, s.sf, s.of = int(r == 0), r >> (w - 1), PUB
                else:
                    s.cf = s.of = PUB
        else:
            r = taint(a, c)
            M.flags(s, r)
        M.set(s, ops[0], r)
    return h


def h_imul(M, s, ops):
    if len(ops) == 1:
        return h_mul(M, s, ops, True)
    n = width(ops) or 8
    a, b = M.get(s, ops[-2]), M.get(s, ops[-1])
    if type(a) is int and type(b) is int:
        r = (a * b) & ((1 << (8 * n)) - 1)
    elif len(ops) == 3 and b == 0:
        r = 0
    else:
        r = taint(a, b)
    M.flags(s, SEC if r is SEC else PUB)
    M.set(s, ops[0], r)


def h_mul(M, s, ops, signed=False):
    b = M.get(s, ops[0])
    n = width(ops) or 8
    a = M.get(s, ("r", RAX, n)) if n >= 4 else s.r[RAX]
    if type(a) is int and type(b) is int and n >= 4:
        w = 8 * n
        a &= (1 << w) - 1
        b &= (1 << w) - 1
        if signed:
            a -= (a >> (w - 1)) << w
            b -= (b >> (w - 1)) << w
        M.set(s, ("r", RAX, n), a * b & ((1 << w) - 1))
        M.set(s, ("r", RDX, n), a * b >> w & ((1 << w) - 1))
        M.flags(s, PUB)
        return
    t = taint(b, s.r[RAX])
    if n >= 4:
        s.r[RAX] = s.r[RDX] = t
    else:
        s.r[RAX] = taint(t, s.r[RAX])
        s.r[RDX] = taint(t, s.r[RDX])
    M.flags(s, t)


def h_div(M, s, ops):
    M.counts["divisions"] += 1
    n = width(ops) or 8
    b = M.get(s, ops[0])
    t = taint(b, s.r[RAX], s.r[RDX])
    if t is SEC:
        raise Leak("an operand of a division instruction")
    if n >= 4:
        lo, hi = M.get(s, ("r", RAX, n)), M.get(s, ("r", RDX, n))
        if type(lo) is int and type(hi) is int and hi == 0 and type(b) is int:
            m = (1 << (8 * n)) - 1
            b &= m
            lo &= m
            if b and not (lo | b) >> (8 * n - 1):           # the same quotient signed and unsigned
                M.set(s, ("r", RAX, n), lo // b)
                M.set(s, ("r", RDX, n), lo % b)
                M.flags(s, PUB)
                return
    s.r[RAX] = s.r[RDX] = PUB
    M.flags(s, PUB)


def carry(M, s, ops):
    n = width(ops) or 8
    if ops[0] == ops[1] and True:
        t = SEC if s.cf is SEC else PUB
    else:
        t = taint(M.get(s, ops[0]), M.get(s, ops[1]), s.cf)
    M.set(s, ops[0], t)
    M.flags(s, t)


def h_adc(M, s, ops):
    t = taint(M.get(s, ops[0]), M.get(s, ops[1]), s.cf)
    M.set(s, ops[0], t)
    M.flags(s, t)


def h_push(M, s, ops):
    v = M.get(s, ops[0])
    s.r[RSP] = sp = M.plus(s.r[RSP], -8)
    M.put(s, sp, 8, v)


def h_pop(M, s, ops):
    sp = s.r[RSP]
    v = M.at(s, sp, 8)
    s.r[RSP] = M.plus(sp, 8)
    M.set(s, ops[0], v)


def h_leave(M, s, ops):
    s.r[RSP] = s.r[RBP]
    h_pop(M, s, [("r", RBP, 8)])


def h_xchg(M, s, ops):
    a, b = M.get(s, ops[0]), M.get(s, ops[1])
    M.set(s, ops[0], b, 8)
    M.set(s, ops[1], a, 8)


def extend(frm, to):
    def h(M, s, ops):
        v = M.get(s, ("r", RAX, frm))
        if type(v) is int and v >> (8 * frm - 1):
            v = (v - (1 << (8 * frm))) & ((1 << (8 * to)) - 1)
        elif type(v) is not int:
            v = taint(v)
        M.set(s, ("r", RAX, to), v)
    return h


def sign(n):
    def h(M, s, ops):
        v = M.get(s, ("r", RAX, n))
        if type(v) is int:
            v = (1 << (8 * n)) - 1 if v >> (8 * n - 1) else 0
        else:
            v = taint(v)
        M.set(s, ("r", RDX, n), v)
    return h


def h_movx(M, s, ops):
    d, o = ops
    if d[0] == "x":
        s.x[d[1]] = list(s.x[o[1]]) if o[0] == "x" else M.load16(s, o)
    else:
        M.store16(s, d, s.x[o[1]])


def h_movq(M, s, ops):
    d, o = ops
    if d[0] == "x":
        v = s.x[o[1]][0] if o[0] == "x" else M.get(s, o if o[0] != "m" else o[:1] + (8,) + o[2:])
        s.x[d[1]] = [v, 0]
    elif o[0] == "x":
        M.set(s, d if d[0] != "m" else d[:1] + (8,) + d[2:], s.x[o[1]][0])
    else:
        h_mov(M, s, ops)


def h_movd(M, s, ops):
    d, o = ops
    if d[0] == "x":
        v = M.get(s, o)
        s.x[d[1]] = [v if type(v) is int else taint(v), 0]
    else:
        v = s.x[o[1]][0]
        M.set(s, d, v & 0xffffffff if type(v) is int else taint(v), 4)


def h_movss(M, s, ops):
    """Scalar moves: a load clears the rest, a register move keeps it."""
    d, o = ops
    if d[0] == "x" and o[0] == "m":
        v = M.get(s, o)
        s.x[d[1]] = [v if type(v) is int or (o[1] == 8 and v is not SEC) else taint(v), 0]
    elif d[0] == "x":
        t = s.x[o[1]][0]
        s.x[d[1]] = [taint(t, s.x[d[1]][0]), s.x[d[1]][1]]
    else:
        v = s.x[o[1]][0]
        M.set(s, d, v if type(v) is int else (v if d[1] == 8 else taint(v)))


def h_half(which):
    def h(M, s, ops):
        d, o = ops
        k = 1 if which == "h" else 0
        if d[0] == "x":
            s.x[d[1]][k] = M.load(s, o, 8)
        else:
            M.store(s, d, 8, s.x[o[1]][k])
    return h


def h_unpack(which):
    def h(M, s, ops):
        a, b = s.x[ops[0][1]], M.vec(s, ops[1])
        k = 1 if which == "h" else 0
        s.x[ops[0][1]] = [a[k], b[k]]
    return h


def h_movhlps(M, s, ops):
    s.x[ops[0][1]] = [s.x[ops[1][1]][1], s.x[ops[0][1]][1]]


def h_movlhps(M, s, ops):
    s.x[ops[0][1]] = [s.x[ops[0][1]][0], s.x[ops[1][1]][0]]


def h_pshufd(M, s, ops):
    a = M.vec(s, ops[1])
    i = ops[2][1]
    c = [(i >> (2 * k)) & 3 for k in range(4)]
    out = []
    for lo, hi in ((c[0], c[1]), (c[2], c[3])):
        if hi == lo + 1 and lo % 2 == 0:
            out.append(a[lo // 2])
        else:
            out.append(taint(a[lo // 2], a[hi // 2]))
    s.x[ops[0][1]] = out


def h_shufps(M, s, ops):
    a, b = s.x[ops[0][1]], M.vec(s, ops[1])
    i = ops[2][1]
    c = [(i >> (2 * k)) & 3 for k in range(4)]
    s.x[ops[0][1]] = [taint(a[c[0] // 2], a[c[1] // 2]), taint(b[c[2] // 2], b[c[3] // 2])]


def h_shufpd(M, s, ops):
    a, b = s.x[ops[0][1]], M.vec(s, ops[1])
    i = ops[2][1]
    s.x[ops[0][1]] = [a[i & 1], b[i >> 1 & 1]]


def h_punpckl(M, s, ops):
    a, b = s.x[ops[0][1]], M.vec(s, ops[1])
    t = taint(a[0], b[0])
    s.x[ops[0][1]] = [t, t]


def h_pxor(M, s, ops):
    if ops[0] == ops[1]:
        s.x[ops[0][1]] = [0, 0]
        return
    a, b = s.x[ops[0][1]], M.vec(s, ops[1])
    s.x[ops[0][1]] = [x ^ y if type(x) is int and type(y) is int else taint(x, y) for x, y in zip(a, b)]


def h_pcmpeq(M, s, ops):
    if ops[0] == ops[1]:
        s.x[ops[0][1]] = [M64, M64]
        return
    a, b = s.x[ops[0][1]], M.vec(s, ops[1])
    s.x[ops[0][1]] = [taint(x, y) for x, y in zip(a, b)]


def h_bt(M, s, ops):
    t = taint(M.get(s, ops[0]), M.get(s, ops[1]))
    if ops[0][0] == "m" and ops[1][0] != "i":
        raise Undecided("a bit test with a register offset in memory")
    s.cf = t
    s.sf = s.of = taint(t, s.sf)


def h_bswap(M, s, ops):
    v = M.get(s, ops[0])
    M.set(s, ops[0], v if type(v) is str else PUB)


HANDLERS = {
    "mov": h_mov, "movabs": h_mov, "movzx": h_movzx, "movsx": h_movsx, "movsxd": h_movsx, "lea": h_lea,
    "add": arith("add"), "sub": arith("sub"), "and": arith("and"), "or": arith("or"), "xor": arith("xor"),
    "cmp": h_cmp, "test": h_test, "inc": h_inc(1), "dec": h_inc(-1), "neg": h_neg, "not": h_not,
    "shl": shift("shl"), "sal": shift("shl"), "shr": shift("shr"), "sar": shift("sar"), "rol": shift("rol"),
    "ror": shift("ror"), "imul": h_imul, "mul": h_mul, "div": h_div, "idiv": h_div, "adc": h_adc, "sbb": carry,
    "push": h_push, "pop": h_pop, "leave": h_leave, "xchg": h_xchg,
    "cbw": extend(1, 2), "cwde": extend(2, 4), "cdqe": extend(4, 8), "cdq": sign(4), "cqo": sign(8),
    "movups": h_movx, "movaps": h_movx, "movdqa": h_movx, "movdqu": h_movx, "movapd": h_movx, "movupd": h_movx,
    "movq": h_movq, "movd": h_movd, "movsd": h_movss, "movss": h_movss, "movhps": h_half("h"), "movhpd": h_half("h"),
    "movlps": h_half("l"), "movlpd": h_half("l"), "movhlps": h_movhlps, "movlhps": h_movlhps,
    "punpcklqdq": h_unpack("l"), "unpcklpd": h_unpack("l"), "punpckhqdq": h_unpack("h"), "unpckhpd": h_unpack("h"),
    "pshufd": h_pshufd, "shufps": h_shufps, "shufpd": h_shufpd, "pxor": h_pxor, "xorps": h_pxor, "xorpd": h_pxor,
    "punpckldq": h_punpckl, "punpcklbw": h_punpckl, "punpcklwd": h_punpckl, "unpcklps": h_punpckl,
    "pcmpeqd": h_pcmpeq, "pcmpeqb": h_pcmpeq, "pcmpeqw": h_pcmpeq, "bt": h_bt, "bswap": h_bswap,
}
LANES = {"paddq", "paddd", "paddb", "paddw", "psubq", "psubd", "psubb", "psubw", "pand", "pandn", "por", "andps", "andnps",
         "orps", "andpd", "orpd", "pmuludq", "psllq", "psrlq", "pcmpgtd", "pcmpgtb", "pcmpgtw", "pmulld", "pmullw",
         "pcmpeqq", "pminub", "pmaxub", "pslld", "psrld", "psrad"}


def l_memcpy(M, s):
    d, a, n = s.r[RDI], s.r[RSI], s.r[RDX]
    if SEC in (d, a, n):
        raise Leak("an argument of memcpy")
    if type(n) is not int or n > 1 << 20:
        raise Undecided("memcpy of unknown length")
    vals, o = [], 0
    while o < n:
        w = 8 if n - o >= 8 else 1
        vals.append((o, w, M.at(s, M.plus(a, o), w)))
        o += w
    for o, w, v in vals:
        M.put(s, M.plus(d, o), w, v)
    caller_saved(s)
    s.r[RAX] = d


def l_memset(M, s):
    d, v, n = s.r[RDI], M.get(s, ("r", RSI, 1)), s.r[RDX]
    if SEC in (d, n):
        raise Leak("an argument of memset")
    if type(n) is not int or n > 1 << 20:
        raise Undecided("memset of unknown length")
    o = 0
    while o < n:
        w = 8 if n - o >= 8 else 1
        M.put(s, M.plus(d, o), w, v * 0x0101010101010101 & ((1 << (8 * w)) - 1) if type(v) is int else v)
        o += w
    caller_saved(s)
    s.r[RAX] = d


def l_memcmp(M, s):
    a, b, n = s.r[RDI], s.r[RSI], s.r[RDX]
    if SEC in (a, b, n):
        raise Leak("an argument of memcmp")
    if type(n) is not int or n > 1 << 16:
        raise Undecided("memcmp of unknown length")
    t = taint(*[M.at(s, M.plus(p, o), 1) for p in (a, b) for o in range(n)])
    if t is SEC:
        raise Leak("the memory compared by memcmp, whose time depends on the contents,")
    caller_saved(s)


def l_alloc(M, s):
    s.heap += 1
    k = "heap%d" % s.heap
    s.mem[k] = Mem(PUB)
    caller_saved(s)
    s.r[RAX] = (k, 0)


def l_none(M, s):
    caller_saved(s)


LIB = [(re.compile(k), f) for k, f in (
    (r"^(memcpy|memmove)$|^_ZN17compiler_builtins3mem\d+mem(cpy|move)", l_memcpy), (r"^memset$", l_memset),
    (r"^(memcmp|bcmp)$", l_memcmp), (r"^(malloc|calloc)$|__rust_alloc(_zeroed)?$", l_alloc),
    (r"^free$|__rust_dealloc$|no_alloc_shim", l_none))]

CARGO = """[package]
name = "roots"
version = "0.0.0"
edition = "2021"
[lib]
path = "roots.rs"
crate-type = ["cdylib"]
[dependencies]
safecurves-rust = { path = "%s" }
[workspace]
"""


def build(repo, scratch, env):
    """Release build of the entry points with the crate of `repo`; -> path of the shared object."""
    here = os.path.dirname(os.path.abspath(__file__))
    d = os.path.join(scratch, "roots")
    os.makedirs(d)
    with open(os.path.join(here, "..", "machine", "roots.rs")) as f, open(os.path.join(d, "roots.rs"), "w") as g:
        g.write(f.read())
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO % os.path.abspath(repo))
    lock = os.path.join(repo, "Cargo.lock")
    if os.path.exists(lock):
        with open(lock) as f, open(os.path.join(d, "Cargo.lock"), "w") as g:
            g.write(f.read())
    e = dict(env, CARGO_PROFILE_RELEASE_DEBUG="line-tables-only", CARGO_TARGET_DIR=os.path.join(scratch, "target-machine"))
    e.pop("LD_LIBRARY_PATH", None)
    r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=d, env=e, capture_output=True, text=True)
    so = os.path.join(scratch, "target-machine", "release", "libroots.so")
    if r.returncode or not os.path.exists(so):
        raise Undecided("the entry points do not compile against the crate:\n" + r.stderr[-3000:])
    return so


def roots():
    """[(exported name, [(argument, type)])] from machine/roots.rs."""
    here = os.path.dirname(os.path.abspath(__file__))
    t = open(os.path.join(here, "..", "machine", "roots.rs")).read()
    fns = {}
    for kind in ("field", "curve"):
        body = t[t.index("macro_rules! %s" % kind):]
        body = body[:body.index("\n}\n")]
        fns[kind] = [(m.group(1), [tuple(x.strip() for x in q.split(":", 1)) for q in m.group(2).split(",")])
                     for m in re.finditer(r"root!\(\$m, (\w+)\((.*?)\) \{", body)]
    return [("scv.%s.%s" % (m.group(2), f), args) for m in re.finditer(r"^(field|curve)!\((\w+),", t, re.M)
            for f, args in fns[m.group(1)]]


def analyse(code, root):
    """-> dict with the outcome for one entry point."""
    name, args = root
    M = Machine(code)
    vals, regions = [], {}
    for a, t in args:
        if t.startswith("&"):
            regions["arg " + a] = SEC
            vals.append(("arg " + a, 0))
        else:
            vals.append(PUB if a in ("i", "len") else SEC)
    out = {"root": name, "problem": None, "counts": M.counts}
    try:
        M.run(name, vals, regions)
    except (Leak, Undecided) as e:
        pc = getattr(e, "pc", code.elf.syms.get(name, 0))
        out["problem"] = ("ct" if isinstance(e, Leak) else "analysis", str(e), pc)
    out["funcs"] = sorted(M.funcs)
    out["jumps"] = sorted(M.jumps)
    return out


DEEP = [("release", {}), ("release, LTO", {"LTO": "fat"}), ("release, opt-level 1", {"OPT_LEVEL": "1"}),
        ("release, opt-level 2", {"OPT_LEVEL": "2"}), ("release, opt-level s", {"OPT_LEVEL": "s"})]


def job(k):
    t0 = time.time()
    o = analyse(CODE, ROOTS[k])
    o["secs"] = round(time.time() - t0, 2)
    o["where"] = CODE.where(o["problem"][2]) if o["problem"] else None
    o["insn"] = CODE.line.get(o["problem"][2], "").strip() if o["problem"] else None
    return o


def decide(repo, deep):
    """-> problems, coverage"""
    global CODE, ROOTS
    problems, cov = [], {"builds": [], "entry_points": 0, "instructions_interpreted": 0, "conditional_jumps_evaluated": 0,
                         "memory_accesses": 0, "divisions": 0, "paths": 0, "calls": 0, "samples": []}
    funcs, jumps = set(), set()
    env = extract.toolenv()
    for label, opts in DEEP if deep else DEEP[:1]:
        scratch = tempfile.mkdtemp(prefix="scv-")
        try:
            so = build(repo, scratch, dict(env, **{"CARGO_PROFILE_RELEASE_" + k: v for k, v in opts.items()}))
            CODE, ROOTS = Code(so), roots()
            missing = [r[0] for r in ROOTS if r[0] not in CODE.elf.syms]
            if missing or len(ROOTS) < 450:
                raise Undecided("entry points missing from the machine code: %s" % missing[:5])
            heavy = ("scalar_mult", "e_521", "e521", "41417", "e511", "e_382")
            order = sorted(range(len(ROOTS)), key=lambda k: tuple(h not in ROOTS[k][0] for h in heavy))
            with multiprocessing.get_context("fork").Pool(8) as pool:
                res = pool.map(job, order, chunksize=1)
            v = subprocess.run(["rustc", "-V"], env=env, capture_output=True, text=True).stdout.strip()
            cov["builds"].append("%s: %s, x86-64, %d entry points" % (label, v, len(res)))
            cov["entry_points"] += len(res)
            for o in res:
                c = o["counts"]
                cov["instructions_interpreted"] += c["instructions"]
                cov["conditional_jumps_evaluated"] += c["conditional_jumps"]
                for k in ("memory_accesses", "divisions", "paths", "calls"):
                    cov[k] += c[k]
                funcs.update((label, f) for f in o["funcs"])
                jumps.update((label, j) for j in o["jumps"])
                if o["problem"]:
                    kind, text, pc = o["problem"]
                    at, chain = o["where"]
                    fn = re.sub(r"<([^<>]*::)+", "<", chain)
                    if kind == "ct":
                        text = "%s depends on a secret" % text
                    problems.append((kind, "%s: %s (`%s` at %#x in %s; %s)" % (o["root"], text, o["insn"], pc, fn, label), at, []))
            if label == "release":
                cov["samples"] = ["%s: %d instructions, %d paths" % (o["root"], o["counts"]["instructions"], o["counts"]["paths"])
                                  for o in res[:40]]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    cov["functions_reached"], cov["jump_sites"] = len(funcs), len(jumps)
    return problems, cov
