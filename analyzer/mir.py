"""Loads the extractor's JSON and gives typed access to it."""
import json
import re


class Fn:
    __slots__ = ("id", "d", "name", "path", "krate", "local", "trait", "method", "impl_self",
                 "intrinsic", "body", "_ipdom", "trait_default", "inherent", "trait_args", "targs")

    def __init__(self, id, d):
        self.id, self.d = id, d
        self.name, self.path, self.krate, self.local = d["name"], d["path"], d["krate"], d["local"]
        self.trait = d.get("trait")
        self.trait_default = d.get("trait_default")
        self.inherent = d.get("inherent")
        self.method = d.get("method")
        self.impl_self = d.get("impl_self")
        self.trait_args = d.get("trait_args") or []
        self.targs = d.get("args") or []
        self.intrinsic = d.get("intrinsic")
        self.body = d.get("body")
        self._ipdom = None


CRATE_HASH = re.compile(r"safecurves_rust\[[0-9a-f]+\]")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.fns = [Fn(i, x) for i, x in enumerate(d["fns"])]
        self.allocs = d["allocs"]
        self.files = d["files"]
        self.items = d["items"]
        self.roots = d["roots"]
        self.raw = d
        self.target = d["target"]
        self.ptr = d["target"]["ptr"]
        self.endian = d["target"]["endian"]
        self.tystr = [t.get("str", "") for t in self.types]

    def same(self, o):
        """Is the other dump (of another build profile) the same program?"""
        if any(self.raw[k] != o.raw[k] for k in ("types", "fns", "allocs", "roots", "target")):
            return False
        return CRATE_HASH.sub("", json.dumps(self.items)) == CRATE_HASH.sub("", json.dumps(o.items))

    def loc(self, sp):
        if not sp:
            return "?"
        f = self.files[sp[0]]
        if "/rustlib/src/rust/" in f:
            f = f.split("/rustlib/src/rust/")[1]
        return f"{f}:{sp[1]}"

    def fnloc(self, fn):
        return self.loc(fn.d.get("span"))

    # immediate post-dominators over non-panicking edges
    def ipdom(self, fn):
        if fn._ipdom is not None:
            return fn._ipdom
        blocks = fn.body["blocks"]
        n = len(blocks)
        EXIT = n
        succ = []
        for b in blocks:
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "ret":
                s = [EXIT]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[5]]
            else:
                s = []
            succ.append(s)
        succ.append([])
        # blocks that can reach EXIT
        pred = [[] for _ in range(n + 1)]
        for i, ss in enumerate(succ):
            for x in ss:
                pred[x].append(i)
        live = {EXIT}
        work = [EXIT]
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        # iterative dominators on reversed graph
        order = []
        seen = set()

        def dfs(root):
            stack = [(root, iter(pred[root]))]
            seen.add(root)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in live and y not in seen:
                        seen.add(y)
                        stack.append((y, iter(pred[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(EXIT)
        order.reverse()
        num = {x: i for i, x in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for x in order:
                if x == EXIT:
                    continue
                new = None
                for s in succ[x]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    changed = True
        fn._ipdom = (idom, EXIT)
        return fn._ipdom
