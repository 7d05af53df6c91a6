"""Lock discipline. Every function that takes a lock, or calls one that does, is interpreted by itself
with the others as calls that are recorded with the locks held then, and with the node or state each
argument names. From that: what a function blocks on (its arguments, nodes above or below them), closed
over the calls. Then: no lock is taken (blocking) while it is held and one of the two is exclusive; while
a node is being parsed - it and nodes above it are locked - nothing blocks on it or on a node above it;
a path is not followed with exclusive locks from a node above while a node's lock is held; the callback
of a traversal is not run, nor handed on, while a lock is held. Nodes reached from one another by
parent or child links are different nodes (the tree has no cycles), blocking on a lock only held
for reading for reading is not judged. Nothing that climbs from a node taking locks is handed a
node below one that is held exclusively (by a lock taken here, or by the caller of a method
that changes the node): the climb waits for that very lock."""
from absint import models as M

from .c22 import fnrefs
from .lib import *

FLOOR = 40
NODE = "std::sync::Arc<std::sync::RwLock<node::WzNode>>"
ASSUMPTIONS = ["the tree has no cycles", "another thread does not make a lock wait for ever"]
BLOCKING = {"std::sync::RwLock::<T>::read": "r", "std::sync::RwLock::<T>::write": "w", "std::sync::Mutex::<T>::lock": "w"}
PARSE = "node::WzNode::parse"
BLANKET = ("<T as std::convert::Into<U>>::into",)


def check(ck):
    P = ck.prog()
    A = Analysis(ck)
    ck.expect("functions that take locks", len(A.direct) >= 10, "src", "only %d functions take locks" % len(A.direct))
    for f in sorted(A.reach):
        ck.guard("locks of %s" % f, A.explore, f)
    A.close()
    for f in sorted(A.fn):
        ck.guard("taken twice: %s" % f, A.twice, f)
    ck.guard("blocking during a parse", A.parsing)
    for f in sorted(A.fn):
        ck.guard("links followed: %s" % f, A.following, f)
    for f in sorted(A.fn):
        ck.guard("climbing from below: %s" % f, A.climbing, f)
    ck.guard("callbacks of traversals", A.callbacks)


class Fn:
    """what is known of one function"""

    def __init__(self, name, ctx):
        self.name, self.ctx = name, ctx
        self.locks = []  # (id, mode, type, held, out, phis, span)
        self.calls = []  # (callee, ids by argument, held, out, phis, span, callback handed on?)
        self.backs = []  # callbacks run: (type, held, span)
        self.params = {}  # argument -> id of the lock it names
        self.inner = {}  # argument -> id of the lock whose content it is
        self.mut = set()  # arguments that are exclusive
        self.results = []  # ids of the locks its result names


def ident(I, p):
    r, path = I.target(p)
    return (r, tuple(path))


def place(I, guardptr):
    """the lock a guard is of"""
    r, path = I.target(guardptr)
    return (r, tuple(path[:-1]))


def named(I, st, v, ty):
    """the locks a value of that type names: [("lock" | "inner", id)]"""
    ty = ty.strip()
    for pre in ("&mut ", "&"):
        if ty.startswith(pre):
            rest = ty[len(pre):].strip()
            if rest.startswith("'"):
                rest = rest.split(" ", 1)[1]
            try:
                if rest == "node::WzNode":
                    r, path = I.target(v)
                    return [("inner", (r, tuple(path[:-1]) if path and path[-1] == ("f", 0) else tuple(path)))]
                r, path = I.target(v)
                return named(I, st, I.load(st, r, path), rest)
            except Exception:
                return []
    if ty.startswith("std::sync::Arc<std::sync::RwLock<"):
        try:
            return [("lock", ident(I, v))]
        except Exception:
            return []
    for pre in ("std::option::Option<", "std::result::Result<"):
        if ty.startswith(pre):
            inner = ty[len(pre):-1]
            if pre.startswith("std::result"):
                inner = inner.split(", ")[0]
            if v.op == "agg" and v.a[0][0] == "adt" and not v.a[1]:
                return []
            try:
                x = I.proj(st, v, ("vf", 1 if "option" in pre else 0, 0))
            except Exception:
                return []
            return named(I, st, x, inner)
    return []


class Analysis:
    def __init__(self, ck):
        self.ck = ck
        P = ck.prog()
        self.refs, self.direct, self.body = {}, set(), {}
        for b in P.bodies:
            f = b.path.split("::{closure")[0]
            if b.path == f:
                self.body.setdefault(f, b)
            for r in fnrefs(b):
                self.refs.setdefault(f, set()).update(x for x in r[:2] if x)
                if r[0] in BLOCKING:
                    self.direct.add(f)
        self.direct &= set(self.body)
        self.reach = set(self.direct)
        more = True
        while more:
            more = False
            for f in set(self.body) - self.reach:
                if f not in BLANKET and self.refs.get(f, set()) & self.reach:
                    self.reach.add(f)
                    more = True
        self.fn = {}

    # ---------------------------------------------------------------- one function
    def explore(self, f):
        ck = self.ck
        P = ck.prog()
        if f in self.direct:
            pass
        seen = {}

        def lock(name):
            def m(c):
                before = c.self_ty
                r = M.LOCK[name.rsplit("::", 1)[1]](c)
                st = r[0][1] if isinstance(r, list) else c.st
                ev = st.trace[-1]
                seen[id(ev)] = (before, ev)
                return r

            return m

        def cut(name):
            def m(c):
                ids = []
                for i, a in enumerate(c.args):
                    ty = P.ts(c.atys[i]) if c.atys and i < len(c.atys) and c.atys[i] is not None else ""
                    ids.append(tuple(named(c.I, c.st, a, ty)))
                back = any(a in cbs for a in c.args)
                r = c.I.opaque_call(c, "fn:" + name)
                ev = c.st.trace[-1]
                seen[id(ev)] = (("call", name, tuple(ids), back), ev)
                return r

            return m

        op = {g: cut(g) for g in self.reach}
        for g in self.body:
            if g.startswith("ms::") and g not in self.reach:
                op[g] = lambda c, g=g: c.I.opaque_call(c, "of:" + g)
        for n in BLOCKING:
            if n.rsplit("::", 1)[1] in M.LOCK:
                op[n] = lock(n)
        b = self.body[f]
        cbs = []
        try:
            c = ck.ctx(f if ck.has(f) else b, opaque=op)
        except Missing:
            return
        F = Fn(f, c)
        for i in range(b.argc):
            ty = P.ts(b.locals[i + 1][0])
            for kind, x in named(c.I, c.st, c.a[i], ty):
                (F.params if kind == "lock" else F.inner)[i] = x
                if kind == "inner" and ty.startswith("&mut"):
                    F.mut.add(i)
            if "dyn " in ty and "ops::Fn" in ty:
                cbs.append(c.a[i])
        F.callbacks = cbs
        outs = c.run()
        ck.funcs |= c.I.inlined
        rty = P.ts(b.locals[0][0])
        for o in outs:
            phis = {}
            self.replay(F, o.st.trace, (), o, phis, seen)
            if o.kind == "ret":
                for kind, x in named(c.I, o.st, o.ret, rty):
                    F.results.append((x, phis))
        self.fn[f] = F
        self.ck.ok("locks of %s" % f, "%d acquisitions, %d calls" % (len(F.locks), len(F.calls)))

    def replay(self, F, trace, held, o, phis, seen, depth=0):
        """the locks held along a trace, a loop's turns run twice"""
        for e in trace:
            r = e.r
            if r[0] in ("lock", "trylock"):
                x = place(F.ctx.I, r[2])
                if r[0] == "lock":
                    F.locks.append((x, r[1], seen.get(id(e), ("?",))[0], held, o, phis, e))
                held = held + ((x, r[1]),)
            elif r[0] == "unlock":
                x = place(F.ctx.I, r[2])
                for k in range(len(held) - 1, -1, -1):
                    if held[k] == (x, r[1]):
                        held = held[:k] + held[k + 1:]
                        break
            elif r[0] == "call" and r[1].startswith("fn:"):
                s = seen.get(id(e))
                if s:
                    F.calls.append((s[0][1], s[0][2], held, o, phis, e, s[0][3]))
            elif r[0] == "call" and r[1] == "callback":
                F.backs.append((r[2], held, e))
            elif r[0] == "loop":
                lp = r[1]
                for p in lp.init:
                    phis[p] = [lp.init[p]] + list(lp.steps[p])
                if depth > 1:
                    continue
                after = {held}
                for b in lp.backs:
                    after.add(self.replay(F, b.trace, held, o, phis, seen, depth + 1))
                for h in list(after)[:4]:
                    if h != held:
                        for b in lp.backs:
                            self.replay(F, b.trace, h, o, phis, seen, depth + 1)
        return held

    # ---------------------------------------------------------------- where a lock comes from
    def classes(self, F, x, phis, seen=None):
        seen = set() if seen is None else seen
        root = x[0] if isinstance(x, tuple) else x
        if isinstance(x, tuple):
            for i, p in list(F.params.items()):
                if p == x:
                    return {("param", i)}
            for i, p in F.inner.items():
                if p == x:
                    return {("inner", i)}
        res = set()
        ph = [y for y in self.outside(root) if y.op == "phi"]
        if t.atoms(root, lambda y: y.op == "strong"):
            res.add("above")
        for y in t.atoms(root, lambda y: y.op == "ev" and isinstance(y.a[0], str) and y.a[0].startswith("fn:")):
            if self.results_above(y.a[0][3:]):
                res.add("above")
        if not res and t.atoms(root, lambda y: y.op in ("mapget", "entries", "mapvals")):
            res.add("below")
        for p in ph:
            if p in seen or p not in phis:
                continue
            seen.add(p)
            for v in phis[p]:
                res |= self.classes(F, v, phis, seen)
        if not res:
            if root.op == "heap" or t.atoms(root, lambda y: y.op == "heap"):
                res.add("new")
            elif t.atoms(root, lambda y: y.op == "ev" and isinstance(y.a[0], str) and y.a[0].startswith("fn:")):
                res.add("result")
            else:
                res.add("other")
        return res

    @staticmethod
    def outside(root):
        """the subterms of a place that are not merely arguments of a call that returned it, or the place in a list"""
        st, seen = [root], set()
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st += list(y)
            elif isinstance(y, t.T) and y.id not in seen:
                seen.add(y.id)
                yield y
                if not (y.op == "ev" and isinstance(y.a[0], str) and y.a[0].startswith("fn:")):
                    st += list(y.a[:1] if y.op == "elem" else y.a)

    @staticmethod
    def names(root):
        """a place, and the pointer to it"""
        return (root, root.a[0]) if root.op in ("deref", "val") else (root,)

    def origins(self, F, x, phis):
        """the arguments a lock was reached from"""
        todo, seen, out = [x[0] if isinstance(x, tuple) else x], set(), set()
        roots = {}
        for i, p in list(F.params.items()) + list(F.inner.items()):
            for r in self.names(p[0]):
                roots.setdefault(r, set()).add(i)
        while todo:
            for y in self.outside(todo.pop()):
                if y in seen:
                    continue
                seen.add(y)
                out |= roots.get(y, set())
                todo += phis.get(y, [])
        return out

    def results_above(self, g):
        return g in self.above_results

    # ---------------------------------------------------------------- closing over the calls
    def close(self):
        self.above_results = set()
        more = True
        while more:
            more = False
            for f, F in self.fn.items():
                if f not in self.above_results and any("above" in self.classes(F, x, ph) for x, ph in F.results):
                    self.above_results.add(f)
                    more = True
        # blocks(f): {(argument, mode)}: the lock an argument names is taken
        self.blocks = {f: set() for f in self.fn}
        # writes below the node an argument is (its content or its lock)
        self.subtree = {f: set() for f in self.fn}
        # follows exclusive locks down from a node above an argument
        self.roams = {f: set() for f in self.fn}
        # climbs(f): {(argument, mode)}: locks of nodes above the node an argument is are waited for
        self.climbs = {f: set() for f in self.fn}
        for f, F in self.fn.items():
            for x, mode, ty, held, o, ph, e in F.locks:
                if "node::WzNode" in ty and "above" in self.classes(F, x, ph):
                    self.climbs[f] |= {(i, mode) for i in self.origins(F, x, ph)}
        more = True
        while more:
            more = False
            for f, F in self.fn.items():
                cs = set(self.climbs[f])
                for g, ids, held, o, ph, e, back in F.calls:
                    for j, names in enumerate(ids):
                        up = {m for k, m in self.climbs.get(g, ()) if k == j}
                        for kind, x in names if up else ():
                            cs |= {(i, m) for i in self.origins(F, x, ph) for m in up}
                if cs != self.climbs[f]:
                    self.climbs[f] = cs
                    more = True
        more = True
        while more:
            more = False
            for f, F in self.fn.items():
                b, s, ro = set(self.blocks[f]), set(self.subtree[f]), set(self.roams[f])
                for x, mode, ty, held, o, ph, e in F.locks:
                    cl = self.classes(F, x, ph)
                    for c in cl:
                        if isinstance(c, tuple):
                            b.add((c[1], mode))
                    if mode == "w" and "below" in cl and "node::WzNode" in ty:
                        s |= set(F.params) | set(F.inner)
                for g, ids, held, o, ph, e, back in F.calls:
                    for j, names in enumerate(ids):
                        for kind, x in names:
                            cl = self.classes(F, x, ph)
                            for c in cl:
                                if isinstance(c, tuple):
                                    b |= {(c[1], m) for k, m in self.blocks.get(g, ()) if k == j and kind == "lock"}
                                    if j in self.subtree.get(g, ()):
                                        s.add(c[1])
                                    if j in self.roams.get(g, ()):
                                        ro.add(c[1])
                            if j in self.subtree.get(g, ()) and "above" in cl:
                                ro |= set(F.params) | set(F.inner)
                            if j in self.subtree.get(g, ()) and "below" in cl:
                                s |= set(F.params) | set(F.inner)
                if (b, s, ro) != (self.blocks[f], self.subtree[f], self.roams[f]):
                    self.blocks[f], self.subtree[f], self.roams[f] = b, s, ro
                    more = True

    def show(self, x):
        return sh(x[0])[:160] + "".join(".%s" % (p,) for p in x[1])

    def at(self, F, e):
        s = getattr(e, "span", None)
        return "%s (%s)" % (F.name, ":".join(str(y) for y in s[:2]) if s else F.ctx.where())

    # ---------------------------------------------------------------- the rules
    def twice(self, f):
        F = self.fn[f]
        for x, mode, ty, held, o, ph, e in F.locks:
            for h, m in held:
                if h == x and "w" in (m, mode):
                    self.ck.bad("taken twice: %s" % f, self.at(F, e), "the lock of %s is taken (%s) while it is held (%s)" % (self.show(x), mode, m))
                    return
        for g, ids, held, o, ph, e, back in F.calls:
            for j, names in enumerate(ids):
                for kind, x in names:
                    for h, m in held:
                        for k, mode in self.blocks.get(g, ()):
                            if kind == "lock" and k == j and h == x and "w" in (m, mode):
                                self.ck.bad("taken twice: %s" % f, self.at(F, e), "%s is called and takes the lock of %s (%s) while it is held (%s)" % (g, self.show(x), mode, m))
                                return
        self.ck.ok("taken twice: %s" % f, "%d acquisitions, %d calls" % (len(F.locks), len(F.calls)))

    def parsing(self):
        """what runs below WzNode::parse, whose second argument is the node being parsed"""
        if PARSE not in self.fn:
            raise Undecided("the parse of a node is not found")
        start = frozenset(self.fn[PARSE].params)
        if not start:
            raise Undecided("the parse of a node is not handed the node")
        todo, done = [(PARSE, start)], set()
        n = 0
        while todo:
            f, locked = todo.pop()
            if (f, locked) in done or f not in self.fn:
                continue
            done.add((f, locked))
            F = self.fn[f]
            for x, mode, ty, held, o, ph, e in F.locks:
                if "node::WzNode" not in ty:
                    continue
                n += 1
                cl = self.classes(F, x, ph)
                if "above" in cl:
                    self.ck.bad("blocking during a parse", self.at(F, e), "during a parse %s waits for the lock of a node above it (%s): a parse of that node may be what is going on" % (f, self.show(x)))
                    return
                for c in cl:
                    if isinstance(c, tuple) and (c[1] in locked or c[0] == "inner"):
                        self.ck.bad("blocking during a parse", self.at(F, e), "during a parse %s waits for the lock of the node being parsed" % f)
                        return
                if "other" in cl:
                    raise Undecided("%s waits for the lock of %s during a parse" % (f, self.show(x)))
            for g, ids, held, o, ph, e, back in F.calls:
                now = set()
                for j, names in enumerate(ids):
                    for kind, x in names:
                        cl = self.classes(F, x, ph)
                        if kind == "lock" and ("above" in cl or any(isinstance(c, tuple) and c[1] in locked for c in cl)):
                            now.add(j)
                todo.append((g, frozenset(now)))
        self.ck.ok("blocking during a parse", "%d functions, %d acquisitions" % (len({f for f, _ in done}), n))

    def following(self, f):
        F = self.fn[f]
        k = 0
        for g, ids, held, o, ph, e, back in F.calls:
            for j, names in enumerate(ids):
                for kind, x in names:
                    cl = self.classes(F, x, ph)
                    far = j in self.roams.get(g, ()) or j in self.subtree.get(g, ()) and "above" in cl
                    if not far:
                        continue
                    k += 1
                    for h, m in held:
                        hc = self.classes(F, h, ph)
                        if h == x and j not in self.roams.get(g, ()) or hc <= {"new"}:
                            continue
                        if any(l[0] == h and "node::WzNode" not in l[2] for l in F.locks):
                            continue
                        self.ck.bad("links followed: %s" % f, self.at(F, e), "%s takes exclusive locks on the way from a node above, while the lock of %s is held" % (g, self.show(h)))
                        return
        self.ck.ok("links followed: %s" % f, "%d" % k)

    def climbing(self, f):
        F = self.fn[f]
        k = 0
        for g, ids, held, o, ph, e, back in F.calls:
            for j, names in enumerate(ids):
                up = {m for i, m in self.climbs.get(g, ()) if i == j}
                for kind, x in names if up else ():
                    k += 1
                    if "below" not in self.classes(F, x, ph):
                        continue
                    org = self.origins(F, x, ph)
                    for i in org & F.mut:
                        self.ck.bad("climbing from below: %s" % f, self.at(F, e), "%s waits for the locks of the nodes above %s, the first of which is the node %s has exclusively" % (g, self.show(x), f))
                        return
                    for h, m in held:
                        if m == "w" and h[0] != x[0] and any(y in self.names(h[0]) for y in self.outside(x[0])) and any("node::WzNode" in l[2] for l in F.locks if l[0] == h):
                            self.ck.bad("climbing from below: %s" % f, self.at(F, e), "%s waits for the locks of the nodes above %s, while the lock of one of them is held for writing" % (g, self.show(x)))
                            return
        for x, mode, ty, held, o, ph, e in F.locks:
            if "node::WzNode" in ty and "above" in self.classes(F, x, ph):
                k += 1
        self.ck.ok("climbing from below: %s" % f, "%d" % k)

    def callbacks(self):
        n = 0
        for f, F in sorted(self.fn.items()):
            if not F.callbacks:
                continue
            for args, held, e in F.backs:
                n += 1
                if held:
                    self.ck.bad("callbacks of traversals", self.at(F, e), "the callback is run while the lock of %s is held" % self.show(held[-1][0]))
                    return
            for g, ids, held, o, ph, e, back in F.calls:
                if back and held:
                    self.ck.bad("callbacks of traversals", self.at(F, e), "the callback is handed on to %s while the lock of %s is held" % (g, self.show(held[-1][0])))
                    return
        if not n:
            raise Undecided("no callback is run")
        self.ck.ok("callbacks of traversals", "%d calls" % n)
