"""Direct lookup: the function that finds one node of an image without parsing it is interpreted
with every reading method a grammar symbol. Each way past a record must leave the cursor where the
full parser leaves it for that code; each way down must go behind the header the full parser skips
for that kind; a match at the end of the path must be handed to the record parser itself at the
position of that record; and "not found" may only be answered when no record of the container can
be the one asked for. The entry in the image must start both readings at the same place."""
from .records import *
from .c04 import u8

FLOOR = 3
GET = PP + "get_node"
MORE = PP + "parse_more"
CODES = {0, 2, 11, 3, 19, 20, 4, 5, 8, 9}


def check(ck):
    ck.guard("anchors", lambda: [ck.fn(f) for f in (GET, NODE)])
    ck.guard("lookup", lookup, ck)
    ck.guard("entry", entry, ck)


# ---------------------------------------------------------------- the exploration
class L:
    def __init__(self, ck):
        self.ck = ck
        op = models(ck, NODE)
        if ck.has(MORE):
            op[MORE] = more
        c = self.c = ck.ctx(GET, opaque=op)
        self.path, self.org, self.reader, self.origin = c.a
        self.pos = c.fld(self.reader, ck.fi(SR, "pos"), 0)
        t.settype(self.pos, "usize")
        bp = c.fld(self.reader, ck.fi(SR, "buf"))
        self.buf = c.I.content(c.st, bp.a[0] if bp.op == "at" else bp)
        c.assume(t.le(self.pos, Int(1 << 60)))
        self.outs = c.run()
        ck.funcs |= c.I.inlined
        self.rets = [o for o in self.outs if o.kind == "ret"]
        self.words = None

    rd, end, at = Rec.rd, Rec.end, Rec.at

    def out(self, st):
        return Out(self.c, "back", st, None)

    def elem_of(self, x):
        """index of an element of the path"""
        if x.op == "at" and len(x.a) == 1:
            x = x.a[0]
        if x.op == "elem" and x.a[0].op == "seqof" and x.a[0].a[0] == "split":
            self.words = x.a[0]
            return x.a[1]
        return None

    def index(self, cur, lps):
        """which element of the path is looked for, in terms of the turn of the enclosing loop"""
        k = self.elem_of(cur)
        if k is not None:
            return k
        for lp in lps:
            if cur in lp.init:
                i0 = self.elem_of(lp.init[cur])
                es = [self.elem_of(x) for x in lp.steps[cur]]
                if i0 is None or any(e is None for e in es):
                    break
                for p in lp.init:
                    if p is cur or lp.init[p].op != "int" and lp.init[p].op != "lin":
                        continue
                    d = t.sub(i0, lp.init[p])
                    if all(t.eq(e, t.add(s, d)).op in ("int", "true") and t.eq(e, t.add(s, d)) is TRUE for e, s in zip(es, lp.steps[p])):
                        return t.add(p, d)
        raise Undecided("which element of the path is looked for: %s" % sh(cur))

    def wanted(self, st, name):
        """(condition, other side) of the comparison of this record's name with the path"""
        for b in st.bounds:
            x = b
            if x.op == "seqeq" and name in x.a:
                y = x.a[1] if x.a[0] is name else x.a[0]
                if y.op != "bytes":
                    return x, y
        return None, None


def more(c):
    f = c.st.fork()
    a = [c.I.content(c.st, x) if i == 6 else x for i, x in enumerate(c.args)]
    r, p = c.I.target(a[2])
    a[2] = c.I.load(c.st, r, p)
    c.I.event(c.st, "more", tuple(a), c.span)
    c.I.event(f, "more:failed", tuple(a), c.span)
    return [("ret", c.st, t.ok(mk("call", "more-node", ()))), ("ret", f, t.err(mk("call", "more-err", ())))]


def kind_of(g, st, x):
    res = []
    for k in KINDS:
        p, q = sorted((x, mk("bytes", k)), key=lambda z: z.id)
        d = st.decide(mk("seqeq", p, q))
        if d is True:
            return k
        if d is None:
            res.append(k)
    return None if not res else False


# ---------------------------------------------------------------- one record
class Record:
    """what is known of the record under the cursor in a state of the inner loop"""

    def __init__(self, g, st, lps, phi):
        self.g, self.st = g, st
        self.p = phi
        self.name = g.rd("read_wz_string_block", phi, g.origin)
        self.q = g.end("read_wz_string_block", phi, g.origin)
        self.code = u8(g, self.q)
        cond, cur = g.wanted(st, self.name)
        self.cond = cond
        self.match = st.decide(cond) if cond is not None else None
        self.k = self.last = None
        if cond is not None and self.match is not False:
            self.k = g.index(cur, lps)
            n = g.c.I.seqlen(g.words)
            self.last = st.decide(t.eq(n, t.add(self.k, ONE)))
            self.n = n

    def codes(self):
        """codes this record may have here; None stands for all the others"""
        res = [k for k in sorted(CODES) if self.st.decide(t.eq(self.code, Int(k))) is not False]
        s = self.st.fork()
        rest = not any(self.st.decide(t.eq(self.code, Int(k))) is True for k in CODES)
        if rest:
            for k in CODES:
                if s.assume(t.eq(self.code, Int(k)), False) is False:
                    rest = False
                    break
        return res + ([None] if rest else [])

    def passed(self, code):
        """(conditions, end of the record) for every shape of a record of this code"""
        g, q = self.g, self.q
        a = t.add(q, ONE)
        if code == 0:
            return [((), a)]
        if code in (2, 11):
            return [((), t.add(a, Int(2)))]
        if code in (3, 19):
            return [((), g.end("read_wz_int", a))]
        if code == 20:
            return [((), g.end("read_wz_int64", a))]
        if code == 5:
            return [((), t.add(a, Int(8)))]
        if code == 4:
            b = t.eq(u8(g, a), Int(0x80))
            return [(((b, True),), t.add(a, Int(5))), (((b, False),), t.add(a, ONE))]
        if code == 8:
            b = u8(g, a)
            r = t.add(a, ONE)
            res = []
            for v in (0, 0x73):
                res.append((((t.eq(b, Int(v)), True),), g.end("read_wz_string_meta", r)))
            for v in (1, 0x1B):
                res.append((((t.eq(b, Int(v)), True),), t.add(r, Int(4))))
            res.append((tuple((t.eq(b, Int(v)), False) for v in (0, 0x73, 1, 0x1B)), r))
            return res
        if code == 9:
            return [((), t.add(t.add(a, Int(4)), g.rd("read_u32", a)))]


def feasible(st, facts):
    s = st.fork()
    for c, v in facts:
        d = s.decide(c)
        if d is (not v):
            return None
        if d is None and s.assume(c, v) is False:
            return None
    return s


# ---------------------------------------------------------------- lookup
def lookup(ck):
    g = L(ck)
    outer, inner = {}, {}
    lps = []

    def walk(es, above):
        for e in es:
            if e.r[0] == "loop":
                lps.append((e.r[1], above))
                for b in e.r[1].backs:
                    walk(b.trace, above + [e.r[1]])

    for o in g.outs:
        walk(o.st.trace, [])
    for lp, above in lps:
        for p, init in lp.init.items():
            if init is g.pos:
                outer.setdefault(p, []).append((lp, None, above))
    for lp, above in lps:
        for p, init in lp.init.items():
            if p in outer or not same_cell(p, next(iter(outer), None)):
                continue
            P = [x for x in outer if t.atoms(init, lambda y: y is x)]
            if len(P) == 1:
                inner.setdefault(p, []).append((lp, P[0], [outer[P[0]][0][0]]))
    g.outer, g.inner = outer, inner
    if not outer or not inner:
        raise Undecided("the loops over path elements and records were not recognised")
    for label, f in (("every record is visited", everyrecord), ("ways past a record", skips), ("ways down", descents), ("what is found", found), ("not found", absent), ("failures", failures)):
        ck.guard(label, run, ck, label, f, g)


def run(ck, label, f, g):
    m = f(ck, g)
    if isinstance(m, str):
        ck.bad(label, g.c.where(), "%s: %s" % (label, m))
    else:
        ck.ok(label, "%d cases" % (m or 0))


def same_cell(p, q):
    return q is not None and p.op == q.op == "phi" and p.a[1] == q.a[1]


def everyrecord(ck, g):
    n = 0
    for phi, lst in g.inner.items():
        for lp, P, above in lst:
            for b in lp.backs:
                o = g.out(b)
                o.within = [lp] + above
                m = want_eq(o, lp.init[phi], g.end("read_wz_int", P), "the start of the records")
                if m:
                    return m
                n += 1
    return n


def back_states(g, kind):
    seen = set()
    for phi, lst in (g.inner if kind == "inner" else g.outer).items():
        for lp, P, above in lst:
            for i, b in enumerate(lp.backs):
                if id(b) in seen:
                    continue
                seen.add(id(b))
                yield phi, lp, P, above, i, b


def skips(ck, g):
    n = 0
    und = None
    done = set()
    for phi, lp, P, above, i, b in back_states(g, "inner"):
        r = Record(g, b, [lp] + above, phi)
        to = lp.steps[phi][i]
        if r.cond is None:
            raise Undecided("a record is passed over without a look at its name")
        for code in r.codes():
            if code is None:
                return "a record of an unknown code is passed over%s" % shown_path(g, b)
            for facts, q in r.passed(code):
                s = feasible(b, ((t.eq(r.code, Int(code)), True),) + facts)
                if s is None:
                    continue
                o = g.out(s)
                o.within = [lp] + above
                try:
                    m = want_eq(o, to, q, "passing over a record of code %d%s, the next position" % (code, ", " + ", ".join(sh(f) for f, v in facts if v) if facts else ""))
                except Undecided as e:
                    und = und or e
                    continue
                if m:
                    return m
                done.add(code)
                if r.match is None:
                    raise Undecided("whether the record passed over is the one looked for")
                if r.match and r.last is not False:
                    if r.last is None:
                        raise Undecided("whether the path ends here")
                    return "the record the path names is passed over%s" % shown_path(g, b)
                if r.match and code == 9:
                    # only kinds without children may be passed over
                    K = g.rd("read_wz_string_block", t.add(r.q, Int(5)), g.origin)
                    if kind_of(g, s, K) in (None,):
                        continue
                    return "the container the path leads through is passed over%s" % shown_path(g, b)
        n += 1
    if und:
        raise und
    miss = CODES - done
    if miss:
        return "no way past a record of code %s" % ", ".join(map(str, sorted(miss)))
    return n


def shown_path(g, st):
    return "\n    path: " + g.out(st).pathdesc()[-600:]


def inner_of(g, st):
    """(phi, loop) of the innermost record loop this state left from"""
    res = None
    for e in st.trace:
        if e.r[0] == "loop":
            for phi in g.inner:
                if phi in e.r[1].init:
                    res = phi, e.r[1]
    return res


def descents(ck, g):
    n = 0
    und = None
    seen = set()
    for phi, lp, _, above, i, b in back_states(g, "outer"):
        got = inner_of(g, b)
        if got is None:
            return "the search goes on although the container has no records%s" % shown_path(g, b)
        p, ilp = got
        r = Record(g, b, [ilp, lp], p)
        to = lp.steps[phi][i]
        if r.cond is None or r.match is None:
            raise Undecided("going down without a look at the name")
        if r.match is False:
            return "the search goes on in a container the path does not name%s" % shown_path(g, b)
        if r.last is not False:
            if r.last:
                return "the search goes down past the end of the path%s" % shown_path(g, b)
            raise Undecided("whether the path ends here")
        if b.decide(t.eq(r.code, Int(9))) is not True:
            if b.decide(t.eq(r.code, Int(9))) is False:
                return "the search goes down into a record that is no block%s" % shown_path(g, b)
            raise Undecided("the code of the record descended into")
        # the element looked for next
        cond, cur = r.cond, None
        cur = cond.a[1] if cond.a[0] is r.name else cond.a[0]
        nxt = next_index(g, cur, lp, i)
        m = want_eq(g.out(b), nxt, t.add(r.k, ONE), "the element of the path looked for next")
        if m:
            return m
        body = t.add(r.q, Int(5))
        x = g.rd("read_wz_string_block", body, g.origin)
        K = g.end("read_wz_string_block", body, g.origin)
        kind = kind_of(g, b, x)
        if kind == "Property":
            want = t.add(K, Int(2))
        elif kind == "Canvas":
            if b.decide(t.eq(u8(g, t.add(K, ONE)), ONE)) is not True:
                return no_flag(g, b, t.eq(u8(g, t.add(K, ONE)), ONE), "a canvas", [ilp, lp])
            want = t.add(K, Int(4))
        elif kind == "RawData":
            for at in (K, t.add(K, ONE)):
                if b.decide(t.eq(u8(g, at), ONE)) is not True:
                    return no_flag(g, b, t.eq(u8(g, at), ONE), "raw data", [ilp, lp])
            want = t.add(K, Int(4))
        elif kind is False:
            raise Undecided("kind of the container descended into")
        else:
            return "the search goes down into %s, whose children do not start with a count" % (kind or "an unknown kind")
        o = g.out(b)
        o.within = [ilp, lp]
        try:
            m = want_eq(o, to, want, "the start of the children of a %s" % kind)
        except Undecided as e:
            und = und or e
            continue
        if m:
            return m
        seen.add(kind)
        n += 1
    if und:
        raise und
    for k in ("Property", "Canvas", "RawData"):
        if k not in seen:
            return "the search never goes down into a %s" % k
    return n


def no_flag(g, st, cond, what, within):
    if st.decide(cond) is False:
        return "the search goes down into %s that has no children%s" % (what, shown_path(g, st))
    o = g.out(st)
    o.within = within
    m = shown(o, cond, "the search goes down into %s whether or not it has children" % what)
    return m


def next_index(g, cur, lp, i):
    k = g.elem_of(cur)
    if k is not None:
        return t.subst(k, {p: lp.steps[p][i] for p in lp.init})
    for e in [cur]:
        if e in lp.steps:
            k = g.elem_of(lp.steps[e][i])
            if k is not None:
                return k
    raise Undecided("the element looked for next")


# ---------------------------------------------------------------- ends of the search
def evs(o, *names):
    return [e for e in o.st.trace if e.r[0] == "call" and e.r[1] in names]


def found(ck, g):
    n = 0
    und = None
    ways = set()
    for o in g.rets:
        if not o.is_ok():
            continue
        try:
            m, way = one_found(ck, g, o)
        except Undecided as e:
            und = und or e
            continue
        if m:
            return m + shown_path(g, o.st)
        ways.add(way)
        n += 1
    if und:
        raise und
    if "node" not in ways:
        return "no path finds a node"
    if "convex" not in ways:
        return "nothing is found below a convex"
    return n


def record_at(g, o):
    got = inner_of(g, o.st)
    if got is None:
        raise Undecided("a node found without a look at the records")
    p, ilp = got
    lps = [lp for v in g.outer.values() for lp, _, _ in v] + [ilp]
    o.within = [ilp] + lps
    return Record(g, o.st, lps, p)


def one_found(ck, g, o):
    I = o.ctx.I
    r = record_at(g, o)
    if r.match is not True:
        if r.match is False:
            return "a node of another name is found", None
        raise Undecided("the name of the node found")
    ns, ms = evs(o, "node"), evs(o, "more")
    if len(ns) + len(ms) != 1:
        raise Undecided("how the node found was parsed")
    if ns:
        if r.last is not True:
            if r.last is False:
                return "a node is found although the path goes on", None
            raise Undecided("whether the path ends here")
        a = ns[0].r[2]
        at, args = a[0], a[1:]
        A = ARGS[NODE]
        m = want_eq(o, at, t.add(r.q, ONE), "the position the record is parsed at")
        if m:
            return m, None
        m = want_eq(o, args[A["code"]], r.code, "the code the record is parsed as")
        if m:
            return m, None
        nm = args[A["name"]]
        if not same_name(o, nm, r.name):
            raise Undecided("the name handed to the record parser: %s" % sh(nm))
        if not is_variant(args[A["parent"]], "None"):
            return "the node found is given a parent", None
        if not o.same(args[A["origin"]], g.origin):
            m = want_eq(o, args[A["origin"]], g.origin, "the base offset handed to the record parser")
            if m:
                return m, None
        if not o.same(I.content(o.st, args[A["org"]]), I.content(o.st, g.org)):
            raise Undecided("the main reader handed on")
        v = o.okval()
        want = mk("call", "node-node", (at, args[A["parent"]]))
        for i in range(2):
            if not o.same(I.proj(o.st, v, ("f", i)), I.proj(o.st, want, ("f", i))):
                raise Undecided("what is found is %s" % sh(v))
        return None, "node"
    # below a convex, whose records have no names: it is parsed and walked
    if r.last is not False:
        if r.last:
            return "a convex asked for is not parsed like a record", None
        raise Undecided("whether the path ends here")
    m = convex(ck, g, o, r, ms[0])
    if m:
        return m, None
    m = walked(g, o, r)
    return m, "convex"


def same_name(o, a, b):
    I = o.ctx.I
    x = I.proj(o.st, a, ("f", 0)) if a.op == "agg" else a
    for u in (a, x, I.content(o.st, a), I.content(o.st, x)):
        if o.same(u, b) or o.same(I.content(o.st, I.proj(o.st, u, ("f", 0))) if u.op == "agg" else u, b):
            return True
    return not not t.atoms(a, lambda y: y is b)


def convex(ck, g, o, r, e):
    body = t.add(r.q, Int(5))
    x = g.rd("read_wz_string_block", body, g.origin)
    kind = kind_of(g, o.st, x)
    if kind is False or o.st.decide(t.eq(r.code, Int(9))) is None:
        raise Undecided("the kind of the record that is parsed and walked")
    if o.st.decide(t.eq(r.code, Int(9))) is False:
        return "a record that is no block is parsed as one"
    if kind != "Shape2D#Convex2D":
        raise Undecided("a %s is parsed and walked" % kind)
    # parse_more(parent, org, reader, end_of_block, origin, name, kind)
    a = e.r[2]
    if len(a) != 7:
        raise Undecided("arguments of the payload parser")
    m = want_eq(o, a[3], t.add(body, g.rd("read_u32", t.add(r.q, ONE))), "the end handed to the convex")
    if m:
        return m
    m = want_eq(o, a[4], g.origin, "the base offset handed to the convex")
    if m:
        return m
    k = bare(a[6])
    if not o.same(k, x) and kind_text(k) != kind:
        raise Undecided("the kind handed on is %s" % sh(k))
    # the cursor stands behind the kind when the payload parser is called: nothing is read after it
    m = want_eq(o, o.ctx.I.proj(o.st, o.ctx.I.proj(o.st, a[2], ("f", ck.fi(SR, "pos"))), ("f", 0)), g.end("read_wz_string_block", body, g.origin), "the position the convex is parsed at")
    return m


def kind_text(x):
    return x.a[0] if x.op in ("bytes", "str") else None


def walked(g, o, r):
    """the rest of the path is followed element by element from the convex, to its end"""
    I = o.ctx.I
    v = o.okval()
    node = I.proj(o.st, v, ("f", 1))
    root = mk("call", "more-node", ())
    lps = [lp for lp in loops(o) if not any(p in lp.init for p in list(g.inner) + list(g.outer))]
    keys = []
    for x in sorted(t.atoms(node, lambda y: y.op == "mapget"), key=lambda y: y.id):
        keys.append(x)
    n = r.n
    first = t.add(r.k, ONE)
    cur = node
    # no further loop: the children named one after the other
    for lp in lps:
        for p in lp.init:
            if t.atoms(node, lambda y: y is p) and step_is_child(g, lp, p):
                el = step_is_child(g, lp, p)
                # the loop ends with the path
                idx = g.elem_of(el)
                if idx is None:
                    raise Undecided("elements walked below a convex")
                ind = [z for z in lp.init if t.atoms(idx, lambda y: y is z)]
                if len(ind) != 1:
                    raise Undecided("elements walked below a convex")
                j = ind[0]
                d = t.sub(idx, j)
                m = want_eq(o, t.add(lp.init[j], d), t.add(first, ONE), "the second element followed below a convex")
                if m:
                    return m
                for s in lp.steps[j]:
                    if t.sub(s, j) is not ONE:
                        return "elements of the path are left out below a convex"
                if o.st.decide(t.le(n, t.add(j, d))) is not True:
                    m = shown(o, t.le(n, t.add(j, d)), "the rest of the path is not followed to its end below a convex")
                    if m:
                        return m
                i0 = lp.init[p]
                k0 = [x for x in t.atoms(i0, lambda y: y.op == "mapget")]
                if len(k0) != 1 or g.elem_of(k0[0].a[1]) is None:
                    raise Undecided("the first element followed below a convex: %s" % sh(i0))
                return want_eq(o, g.elem_of(k0[0].a[1]), first, "the first element followed below a convex")
    raise Undecided("how the path is followed below a convex: %s" % sh(node))


def step_is_child(g, lp, p):
    el = None
    for s in lp.steps[p]:
        x = [y for y in t.atoms(s, lambda y: y.op == "mapget")]
        if len(x) != 1 or not t.atoms(x[0].a[0], lambda y: y is p):
            return None
        if el is not None and el is not x[0].a[1]:
            return None
        el = x[0].a[1]
    return el


def absent(ck, g):
    n = 0
    und = None
    for o in g.rets:
        if not o.is_err() or failed_read(o) or evs(o, "node:failed", "more:failed"):
            continue
        v = o.ret.a[1][0]
        if not is_variant(v, "NodeNotFound"):
            continue
        try:
            m = one_absent(ck, g, o)
        except Undecided as e:
            und = und or e
            continue
        if m:
            return m + shown_path(g, o.st)
        n += 1
    if und:
        raise und
    if n == 0:
        raise Undecided("no path answers not found")
    return n


def one_absent(ck, g, o):
    I = o.ctx.I
    if inner_of(g, o.st) is None:
        # nothing was read: only the empty path
        ln = g.c.len(g.c.seq(g.path))
        if o.st.decide(t.eq(ln, ZERO)) is True:
            return None
        up = [x for x in g.outer if any(e.r[0] == "loop" and x in e.r[1].init for e in o.st.trace)]
        if not up:
            return shown(o, t.eq(ln, ZERO), "a path is not found without a look at the records")
        o.within = [e.r[1] for e in o.st.trace if e.r[0] == "loop"]
        num = t.le(g.rd("read_wz_int", up[0]), ZERO)
        if o.st.decide(num) is True:
            return None
        return shown(o, num, "not found is answered before the records were seen")
    r = record_at(g, o)
    p, ilp = inner_of(g, o.st)
    if r.cond is None or r.match is False:
        # all records were seen
        for cnt in ilp.init:
            if cnt is p or ilp.init[cnt].op != "int":
                continue
            if all(t.sub(s, cnt) is ONE for s in ilp.steps[cnt]):
                up = [x for v in g.outer.values() for lp, _, _ in v for x in lp.init if ilp.init[p] is g.end("read_wz_int", x)]
                if up:
                    num = g.rd("read_wz_int", up[0])
                    if o.st.decide(t.le(num, cnt)) is True:
                        return None
                    return shown(o, t.le(num, cnt), "not found is answered before all records were seen")
        raise Undecided("whether all records were seen")
    if r.match is None:
        raise Undecided("whether the record is the one looked for")
    if r.last is not False:
        if r.last:
            return "the record the path names is answered as not found"
        raise Undecided("whether the path ends here")
    d9 = o.st.decide(t.eq(r.code, Int(9)))
    if d9 is False:
        return None
    if d9 is None:
        raise Undecided("the code of the record")
    body = t.add(r.q, Int(5))
    x = g.rd("read_wz_string_block", body, g.origin)
    K = g.end("read_wz_string_block", body, g.origin)
    may = [k for k in ("Property", "Canvas", "RawData", "Shape2D#Convex2D") if o.st.decide(mk("seqeq", *sorted((x, mk("bytes", k)), key=lambda z: z.id))) is not False]
    kind = kind_of(g, o.st, x)
    if kind in may:
        may = [kind]
    for k in may:
        if k == "Property":
            return "a child of a Property is answered as not found"
        if k == "Shape2D#Convex2D":
            if not evs(o, "more"):
                return "a child of a convex is answered as not found"
            has = [c for c in o.st.bounds if c.op == "haskey" and o.st.decide(c) is False]
            if not has:
                raise Undecided("why nothing is found below a convex")
            continue
        flags = [u8(g, t.add(K, ONE))] if k == "Canvas" else [u8(g, K), u8(g, t.add(K, ONE))]
        if not any(o.st.decide(t.eq(f, ONE)) is False for f in flags):
            s = feasible(o.st, [(t.eq(f, ONE), True) for f in flags])
            if s is not None:
                return shown(o, t.lor(*[t.lnot(t.eq(f, ONE)) for f in flags]) if hasattr(t, "lor") else FALSE, "a child of a %s is answered as not found" % k)
    return None


def failures(ck, g):
    n = 0
    for o in g.rets:
        if o.is_ok():
            continue
        if not o.is_err():
            raise Undecided("result %s" % sh(o.ret))
        if failed_read(o) or out_of_file(o) or evs(o, "node:failed", "more:failed"):
            n += 1
            continue
        v = o.ret.a[1][0]
        if is_variant(v, "NodeNotFound"):
            continue
        if is_variant(v, "UnknownPropertyType"):
            r = record_at(g, o)
            for code in CODES:
                if o.st.decide(t.eq(r.code, Int(code))) is not False:
                    s = feasible(o.st, [(t.eq(r.code, Int(code)), True)])
                    if s is not None:
                        return "a record of code %d is refused as unknown%s" % (code, shown_path(g, o.st))
            n += 1
            continue
        raise Undecided("a failure %s" % o.show())
    return n


# ---------------------------------------------------------------- the image
IMG = "wz_image::WzImage"


def entry(ck):
    def getter(c):
        r, p = c.I.target(c.args[2])
        pos = c.I.load(c.st, r, p + (("f", ck.fi(SR, "pos")), ("f", 0)))
        f = c.st.fork()
        ev = (pos, c.I.content(c.st, c.args[0]), c.I.content(c.st, c.args[1]), c.args[3])
        c.I.event(c.st, "start", ev, c.span)
        c.I.event(f, "start", ev, c.span)
        return [("ret", c.st, t.ok(mk("call", "found", ()))), ("ret", f, t.err(mk("call", "get-err", ())))]

    def lister(c):
        r, p = c.I.target(c.args[2])
        pos = c.I.load(c.st, r, p + (("f", ck.fi(SR, "pos")), ("f", 0)))
        c.I.event(c.st, "start", (pos, None, c.I.content(c.st, c.args[1]), c.args[3]), c.span)
        return c.ret(mk("call", "parsed", ()))

    op = reader_models(ck)
    op[GET], op[LIST] = getter, lister
    res = []
    for fn in ("at_path", "resolve_children"):
        c = ck.ctx(IMG + "::" + fn, opaque=dict(op), args=[mk("sym", "the-image", 0)])
        off = c.fld(c.a[0], ck.fi(IMG, "offset"))
        c.assume(t.le(off, Int(1 << 60)))
        outs = c.run()
        ck.funcs |= c.I.inlined
        st = [(o, e) for o in outs if o.kind == "ret" for e in o.st.trace if e.r[0] == "call" and e.r[1] == "start"]
        if not st:
            raise Undecided("%s never reads records" % fn)
        res.append((c, off, outs, st))
    (c1, off1, outs1, st1), (c2, off2, outs2, st2) = res
    w = c1.where()
    want = st2[0][1].r[2]
    for o, e in st1:
        a = e.r[2]
        m = want_eq(o, a[0], want[0], "the position the search starts at")
        if not m:
            m = want_eq(o, a[3], want[3], "the base offset of the search")
        if not m and not o.same(a[1], c1.I.content(c1.st, c1.a[1])):
            raise Undecided("the path handed on is %s" % sh(a[1]))
        if not m and not o.same(a[2], want[2]):
            raise Undecided("the reader handed on is %s" % sh(a[2]))
        if m:
            ck.bad("entry", w, "looking up a path in an image: %s\n    path: %s" % (m, o.pathdesc()))
            return
    ck.ok("entry", "%d paths" % len(st1))
    # what the full parse reads as records is searched, and the other way round
    ck.guard("same images", agree, ck, c1, outs1, st1, outs2, st2)
    for o, e in st1:
        if o.is_ok():
            v = o.okval()
            if not o.same(v, c1.I.proj(o.st, mk("call", "found", ()), ("f", 1))):
                raise Undecided("what is answered: %s" % sh(v))
    ck.ok("answer")


def agree(ck, c1, outs1, st1, outs2, st2):
    """both accept the same header: no path of one that reads records is compatible with a path of
    the other that refuses the same bytes"""
    w = c1.where()

    def facts(st):
        return [(f, r) for f, r in st.bounds.items()]

    n = 0
    for mine, other, txt in ((st1, outs2, "is searched but refused by a full parse"), (st2, outs1, "is read by a full parse but refused by a search")):
        for o, _ in mine:
            for p in other:
                if p.kind != "ret" or not p.is_err() or failed_read(p) or out_of_file(p):
                    continue
                if any(e.r[0] == "call" and e.r[1] == "start" for e in p.st.trace):
                    continue
                s = o.st.fork()
                good = True
                from absint import witness

                for f, v in witness.path_facts(p.st):
                    d = s.decide(f)
                    if d is (not v) or (d is None and s.assume(f, v) is False):
                        good = False
                        break
                n += 1
                if good:
                    k, m = tell_apart(Out(c1, "ret", s, None), TRUE, FALSE)
                    if k != "differ":
                        raise Undecided("an image that %s? %s" % (txt, m))
                    ck.bad("same images", w, "an image whose header %s\n    path: %s\n    other: %s" % (txt, o.pathdesc()[-500:], p.pathdesc()[-500:]))
                    return
    ck.ok("same images", "%d pairs of paths" % n)
