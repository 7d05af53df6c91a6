"""The type-checked program as extracted by the compiler driver."""
import json
from . import terms as t


class Body:
    def __init__(self, j, prog):
        self.j = j
        self.id = j.get("id")
        self.path = j["path"]
        self.name = j.get("name")
        self.kind = j["kind"]
        self.local = j.get("local", False)
        self.generic = j.get("generic", False)
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.prog = prog
        self._loops = None

    def succ(self, i):
        k = self.blocks[i]["t"]
        o = k[0]
        if o == "goto":
            return [k[1]]
        if o == "switch":
            return [b for _, b in k[2]] + [k[3]]
        if o == "drop":
            return [k[2]]
        if o == "call":
            return [k[4]] if k[4] is not None else []
        if o == "assert":
            return [k[5]]
        return []

    def loops(self):
        """{header: set(blocks)} natural loops over non-unwind edges"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order = []
        seen = set()
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ(y))))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for y in self.succ(b):
                preds[y].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]

        L = {}
        for b in rpo:
            for h in self.succ(b):
                if dom(h, b):
                    s = L.setdefault(h, {h})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in s:
                            continue
                        s.add(x)
                        w += preds[x]
        self._loops = L
        return L

    def ty(self, i):
        return self.prog.types[self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.raw = {"unsafe": d["unsafe"]}
        self.bodies = []
        self.inst = {}
        self.consts = {c["path"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.promoted = {}
        for j in d["bodies"]:
            b = Body(j, self)
            self.bodies.append(b)
            if b.id is not None:
                self.inst[b.id] = b
        self.bypath = {}
        for b in self.bodies:
            self.bypath.setdefault(b.path, []).append(b)
        self.crate = d["crate"]

    def ts(self, i):
        return self.types[i]["s"]

    def prim(self, i):
        k = self.types[i]
        s = k["s"]
        return s if s in t.INTTY else None

    def find(self, suffix, concrete=True):
        """bodies of a function by path (exact), concrete instances first"""
        r = [b for b in self.bypath.get(suffix, []) if b.kind in ("fn", "closure")]
        c = [b for b in r if not b.generic]
        return c if concrete else r
