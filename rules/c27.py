"""Paths and links: the lookup functions are interpreted with their loops taken to a fixpoint and
their node variable matched against the documented walk by induction: it starts at the node
asked (or at the image, base file or parent a link starts from), every iteration takes exactly
the next element of the path to the child filed under it ('..' to the parent where allowed),
and the search ends with nothing exactly when that child or parent is missing."""
from .lib import *

FLOOR = 14
N = "node::WzNode"
U = "util::node_util::"
IM = "wz_image::WzImage"
OT = "object::WzObjectType"
F = "file::WzFile"
SLASH = Int(47)


def unload(x):
    while x.op in ("at", "val") and isinstance(x.a[0], t.T) and not (x.op == "val" and x.a[0].op in ("elem",) and False):
        x = x.a[0]
    return x


def unat(x):
    while x.op == "at":
        x = x.a[0]
    return x


class Walk:
    def __init__(self, ck, c):
        self.ck, self.c = ck, c
        self.CH, self.PA, self.OB, self.NM = (ck.fi(N, f) for f in ("children", "parent", "object_type", "name"))

    def field(self, st, n, f):
        """field of the node behind the shared pointer n"""
        return self.c.I.load(st, mk("deref", unat(n)), (("f", 0), ("f", f)))

    def dots(self, st, key):
        for f in st.bounds:
            if f.op == "seqeq":
                a, b = unload(f.a[0]), unload(f.a[1])
                if b.op != "bytes":
                    a, b = b, a
                if b.op == "bytes" and b.a[0] in ("..", b"..") and a is unload(key):
                    return st.decide(f)
        return None

    def key_is(self, x, key):
        return unload(x) is unload(key)

    def moves(self, st, chmap, parent, key, rel, new):
        """None when `new` is where one element leads, else a message"""
        d = self.dots(st, key) if rel else False
        if new.op == "mapget":
            if not self.key_is(new.a[1], key):
                return "the child looked up is %s, not the path's element %s" % (sh(new.a[1]), sh(key))
            if not any(new.a[0] is m for m in chmap):
                return "the child is looked up in %s, not in the node reached" % sh(new.a[0])
            if rel and d is not False:
                return "'..' is looked up as a child's name"
            return None
        if new.op == "strong":
            if not rel:
                return "the search goes to a parent"
            if new.a[0] is not parent:
                return "the search goes to %s, not to the parent of the node reached" % sh(new.a[0])
            if d is not True:
                return "the search goes to the parent although the element is not '..'"
            return None
        raise Undecided("next node %s" % sh(new))

    def missing(self, st, chmap, parent, key, rel):
        """the element is known to be absent at that node"""
        d = self.dots(st, key) if rel else False
        if d is not True:
            for f in st.bounds:
                if f.op == "haskey" and any(f.a[0] is m for m in chmap) and self.key_is(f.a[1], key) and st.decide(f) is False:
                    return d is False
        if rel and d is True:
            a = mk("alive", parent)
            a.ty = "bool"
            return st.decide(a) is False
        return False


def find_parts(o, arg):
    res = set()
    for x in list(o.st.bounds) + [o.ret]:
        res |= {y for y in t.atoms(x, lambda y: y.op == "seqof" and y.a[0] == "split")}
    res = {y for y in res if unload(y.a[1][0]) is unload(arg)}
    if not res:
        return None
    if len(res) > 1:
        raise Undecided("several splits of the path")
    p = res.pop()
    s = p.a[1][1]
    if not (s is SLASH or (s.op == "bytes" and s.a[0] in ("/", b"/"))):
        raise Undecided("the path is split at %s" % sh(s))
    return p


def path_walk(ck, label, fn, rel, parsed=False):
    """self.<fn>(path)"""
    op = {}
    if parsed:
        op[N + "::parse"] = parse_model
    c = ck.ctx(fn, opaque=op)
    w = Walk(ck, c)
    ch0, pa0 = c.fld(c.a[0], w.CH), c.fld(c.a[0], w.PA)

    def child(st, n):
        return [w.field(st, n, w.CH)]

    def f(o):
        parts = find_parts(o, c.a[1])
        if parts is None:
            raise Undecided("the path is not split into elements")
        el = lambda i: mk("elem", parts, i)
        n = c.len(parts)
        # reachable pairs (children maps, parent, index, node)
        pairs = [([ch0], pa0, ZERO, None, o.st)]
        # unrolled chain
        chain = None
        st = o.st
        k = 0
        for lp in loops(o):
            idx = [p for p in lp.init if lp.init[p].op == "int" and lp.steps[p] and all(same_in(b, s, t.add(p, ONE)) for s, b in zip(lp.steps[p], lp.backs))]
            nodes = [p for p in lp.init if p not in idx and lp.steps[p] and lp.init[p].op in ("mapget", "strong")]
            for p in idx:
                for x in nodes:
                    i0 = lp.init[p].a[0]
                    x0 = lp.init[x]
                    # the node after i0 elements
                    if i0 == 1:
                        m = w.moves(o.st, [ch0], pa0, el(ZERO), rel, x0)
                        if m:
                            return "the first step: " + m
                    else:
                        raise Undecided("the loop starts at element %s with %s" % (i0, sh(x0)))
                    for s, b in zip(lp.steps[x], lp.backs):
                        maps = child(b, x)
                        if parsed:
                            if not [e for e in b.trace if e.r[0] == "call" and e.r[1] == "parsed" and any(True for _ in t.atoms(e.r[2][0], lambda y: y is x))]:
                                return "the search goes on behind a node that was not parsed"
                            maps = parsed_maps(b, w, x)
                        m = w.moves(b, maps, w.field(b, x, w.PA), el(p), rel, s)
                        if m:
                            return m
                    pairs.append((child(o.st, x) if not parsed else parsed_maps(o.st, w, x), w.field(o.st, x, w.PA), p, x, o.st))
        r = o.ret
        some = r.a[1][0] if is_variant(r, "Some") or is_variant(r, "Ok") else None
        if some is not None:
            for maps, par, i, x, st in pairs:
                if x is not None and some is x:
                    if o.same(i, n):
                        return None
                    return "the search ends before the last element of the path"
            if not loops(o):
                m = w.moves(o.st, [ch0], pa0, el(ZERO), rel, some)
                if m:
                    return m
                return None if o.st.decide(t.eq(n, ONE)) is True else "the search ends before the last element of the path"
            raise Undecided("result %s" % sh(some))
        if is_variant(r, "Err") or is_variant(r, "None"):
            for maps, par, i, x, st in pairs:
                if o.st.decide(t.lt(i, n)) is not True and not (i is ZERO):
                    continue
                if w.missing(o.st, maps, par, el(i), rel):
                    return None
            if parsed and any(e.r[0] == "call" and e.r[1] == "unparsable" for e in o.st.trace):
                return None
            return "nothing is found although no element of the path is known to be missing (returns %s)" % sh(r)
        raise Undecided("result %s" % sh(r))

    ck.case(label, c, f)


def parse_model(c):
    """parsing a node replaces its content; its children are those of the parsed node"""
    I = c.I
    root, pth = I.target(c.args[0])
    old = I.load(c.st, root, pth)
    f = c.st.fork()
    I.event(f, "unparsable", (old,), c.span)
    I.event(c.st, "parsed", (old,), c.span)
    I.store(c.st, root, pth, mk("call", "parsed-node", (old,)))
    return [("ret", c.st, t.ok(UNIT)), ("ret", f, t.err(mk("call", "parse-error", (old,))))]


def parsed_maps(st, w, x):
    res = []
    for e in st.trace:
        if e.r[0] == "call" and e.r[1] == "parsed" and any(True for _ in t.atoms(e.r[2][0], lambda y: y is x)):
            res.append(w.c.I.proj(st, mk("call", "parsed-node", e.r[2]), ("f", w.CH)))
    return res


# ---------------------------------------------------------------- upwards
def upward(ck, label, fn, pred):
    """the nearest ancestor satisfying pred(st, node fields) -> True/False/None"""
    c = ck.ctx(fn)
    w = Walk(ck, c)
    pa0 = c.fld(c.a[0], w.PA)

    def f(o):
        lps = loops(o)
        start = mk("strong", pa0)
        if not lps:
            if is_variant(o.ret, "None"):
                a = mk("alive", pa0)
                return None if o.st.decide(a) is False else "nothing is found although there is a parent"
            raise Undecided("result %s without a loop" % sh(o.ret))
        if len(lps) != 1:
            raise Undecided("%d loops" % len(lps))
        lp = lps[0]
        cur = [p for p in lp.init if any(True for _ in t.atoms(lp.init[p], lambda y: y is start))]
        if len(cur) != 1:
            raise Undecided("the node variable is not recognised")
        x = cur[0]
        opt = is_variant(lp.init[x], "Some")
        node = mk("vfld", x, 1, 0) if opt else x
        if (lp.init[x].a[1][0] if opt else lp.init[x]) is not start:
            return "the search starts at %s, not at the parent" % sh(lp.init[x])
        for s, b in zip(lp.steps[x], lp.backs):
            p = pred(b, w, node)
            if p is None:
                raise Undecided("the condition of going on is not recognised")
            if p:
                return "the search goes on past a matching ancestor"
            par = w.field(b, node, w.PA)
            if opt and is_variant(s, "None"):
                if b.decide(mk("alive", par)) is not False:
                    return "the search stops although there is a further parent"
                continue
            v = s.a[1][0] if opt and is_variant(s, "Some") else s
            if v.op != "strong" or v.a[0] is not par:
                return "the search goes from a node to %s, not to its parent" % sh(v)
        if is_variant(o.ret, "Some"):
            if o.ret.a[1][0] is not node:
                return "the ancestor found is %s, not the one looked at" % sh(o.ret.a[1][0])
            p = pred(o.st, w, node)
            if p is None:
                raise Undecided("the condition of success is not recognised")
            return None if p else "an ancestor is returned that does not match"
        if is_variant(o.ret, "None"):
            if opt and o.st.decide(t.eq(o.st.simp(c.I.discr(x, None) if False else discr(x)), ZERO)) is True:
                return None
            if not opt and o.st.decide(mk("alive", w.field(o.st, node, w.PA))) is False and pred(o.st, w, node) is False:
                return None
            return "nothing is found although there are further ancestors"
        raise Undecided("result %s" % sh(o.ret))

    ck.case(label, c, f)


def discr(x):
    return mk("discr", x)


def kind(st, w, node):
    """(index of the content kind, excluded indices) on this path"""
    ob = w.field(st, node, w.OB)
    if ob.op == "agg":
        return ob.a[0][2], ob.a[0][2]
    d = None
    for f in list(st.bounds) + list(st.ne):
        for y in t.atoms(f, lambda y: y.op == "discr" and y.a[0] is ob):
            d = y
    if d is None:
        return None
    return d


def is_kind(ck, st, w, node, variant):
    d = kind(st, w, node)
    if d is None:
        return None
    return st.decide(t.eq(d, Int(ck.vi(OT, variant)))) if isinstance(d, t.T) else d[0] == ck.vi(OT, variant)


def is_base(st, w, node):
    nm = w.field(st, node, w.NM)
    for f in st.bounds:
        if f.op == "seqeq":
            a, b = unload(f.a[0]), unload(f.a[1])
            if b.op != "bytes":
                a, b = b, a
            if b.op == "bytes" and b.a[0] in ("Base", b"Base") and any(True for _ in t.atoms(a, lambda y: y is nm)):
                return st.decide(f)
    return None


# ---------------------------------------------------------------- links
def optnode(name):
    def m(c):
        cont = tuple(bare(c.I.content(c.st, a)) for a in c.args)
        c.I.event(c.st, name, cont, c.span)
        return [("ret", c.st.fork(), t.some(mk("call", name, cont))), ("ret", c.st, t.NONE)]

    return m


def resnode(name):
    def m(c):
        cont = tuple(bare(c.I.content(c.st, a)) for a in c.args)
        c.I.event(c.st, name, cont, c.span)
        f = c.st.fork()
        c.I.event(f, name + ":failed", cont, c.span)
        return [("ret", c.st, t.ok(mk("call", name, cont))), ("ret", f, t.err(mk("call", name + "-error", cont)))]

    return m


def link(ck, label, fn, origin, flag=None):
    op = {N + "::get_parent_wz_image": optnode("image"), N + "::get_base_wz_file": optnode("base"), N + "::at_path": optnode("at-path"), N + "::at_path_relative": optnode("at-path-relative"), N + "::at_path_parsed": resnode("at-path-parsed")}
    args = [None, None] + ([TRUE if flag else FALSE] if flag is not None else [])
    c = ck.ctx(U + fn, opaque=op, args=args)
    w = Walk(ck, c)
    me = c.I.load(c.st, mk("deref", unat(c.seq(c.a[1]))), (("f", 0),))

    def f(o):
        ev = [e.r for e in o.st.trace if e.r[0] == "call"]
        st = [r for r in ev if r[1] in ("image", "base")]
        at = [r for r in ev if r[1].startswith("at-path") and not r[1].endswith(":failed")]
        if any(r[1] != origin for r in st):
            return "the link starts at the %s, expected the %s" % ({"image": "enclosing image", "base": "base file"}[st[0][1]], {"image": "enclosing image", "base": "base file"}[origin])
        for r in st:
            if r[2][0] is not me and not o.same(r[2][0], me):
                return "the link's start is looked for from %s, not from the node" % sh(r[2][0])
        if not st:
            if at:
                return "the link is followed from another start"
            raise Undecided("the link's start is not looked for")
        for r in at:
            s = mk("call", origin, st[0][2])
            sc = c.I.load(o.st, mk("deref", s), (("f", 0),))
            if not (r[2][0] is sc or o.same(r[2][0], sc)):
                return "the link is followed from %s, not from the %s" % (sh(r[2][0]), origin)
            if unload(r[2][1]) is not unload(c.a[0]):
                return "the path followed is %s, not the link's" % sh(r[2][1])
            if r[1] == "at-path-relative":
                return "the link may leave its start upwards"
            if flag is not None and (r[1] == "at-path-parsed") != flag:
                return "the nodes on the way are %sparsed" % ("" if r[1] == "at-path-parsed" else "not ")
        if is_variant(o.ret, "Some"):
            v = o.ret.a[1][0]
            if not any(v is mk("call", r[1], r[2]) for r in at):
                return "the node found is %s" % sh(v)
            return None
        if is_variant(o.ret, "None"):
            if at and any(o.same(o.ret, t.NONE) for _ in [0]):
                okd = [r for r in at if r[1] == "at-path-parsed" and not any(q[1] == "at-path-parsed:failed" for q in ev)]
                if okd:
                    return "a node was found but nothing is returned"
            return None
        raise Undecided("result %s" % sh(o.ret))

    ck.case(label, c, f)


# ---------------------------------------------------------------- relative links
def uol_text(ck):
    text = mk("call", "link-text", ())

    def m(c):
        return [("ret", c.st.fork(), t.ok(text)), ("ret", c.st, t.err(mk("call", "text-error", ())))]

    return text, m


def uol(ck, given):
    text, m = uol_text(ck)
    op = {"property::string::WzString::get_string": m}
    img = mk("sym", "image-ptr")
    c = ck.ctx(U + "resolve_uol", opaque=op, args=[None, t.some(img) if given else t.NONE])
    w = Walk(ck, c)
    me = c.seq(c.a[0])
    par = mk("strong", w.field(c.st, me, w.PA))
    myname = w.field(c.st, me, w.NM)
    ich, ipa = (c.fld(img, w.CH), c.fld(img, w.PA)) if given else (None, None)
    n = {"walk": 0, "put": 0}

    def related(st, x):
        """a condition of this path compares the node with the image being parsed"""
        for f in st.bounds:
            if any(True for _ in t.atoms(f, lambda y: y is x)) and any(True for _ in t.atoms(f, lambda y: y is img)):
                return True
        return False

    def f(o):
        parts = find_parts(o, text)
        el = lambda i: mk("elem", parts, i)
        target = None
        reached = []
        for lp in loops(o):
            idx = [p for p in lp.init if lp.init[p].op == "int" and lp.steps[p] and all(same_in(b, s, t.add(p, ONE)) for s, b in zip(lp.steps[p], lp.backs))]
            nodes = [p for p in lp.init if p not in idx and any(True for _ in t.atoms(lp.init[p], lambda y: y is par or y.op in ("mapget",)))]
            if parts is None:
                continue
            for p in idx:
                for x in nodes:
                    i0 = lp.init[p].a[0]
                    if i0 == 1 and lp.init[x] is not par:
                        m = w.moves(o.st, [w.field(o.st, par, w.CH)], w.field(o.st, par, w.PA), el(ZERO), True, lp.init[x])
                        if m:
                            return "the first step: " + m
                    elif i0 != 0:
                        return "the first elements of the link (%d) are not followed" % i0
                    elif lp.init[x] is not par:
                        return "the link starts at %s, not at its parent" % sh(lp.init[x])
                    for s, b in zip(lp.steps[x], lp.backs):
                        viaimg = given and ((s.op == "mapget" and s.a[0] is ich) or (s.op == "strong" and s.a[0] is ipa))
                        if viaimg:
                            if not related(b, x):
                                return "a node on the way is replaced by the image being parsed without being compared with it"
                            m = w.moves(b, [ich], ipa, el(p), True, s)
                        else:
                            m = w.moves(b, [w.field(b, x, w.CH)], w.field(b, x, w.PA), el(p), True, s)
                        if m:
                            return m
                    n["walk"] += 1
                    reached.append((x, p))
        # what was written
        writes = changed(o, c, w, me, par, img if given else None)
        for where, cell, val in writes:
            key, new = entry_of(val)
            if key is None:
                raise Undecided("children become %s" % sh(val))
            if unload(key) not in (unload(myname), mk("fld", unload(myname), 0)):
                return "the entry replaced is %s, not the link's own" % sh(key)
            if not any(new is x and parts is not None and o.same(p, c.len(parts)) for x, p in reached):
                return "the link's entry becomes %s, not the node its whole path leads to" % sh(new)
            if where == "image" and not related(o.st, par):
                return "an entry of the image being parsed is replaced although the link's parent was not compared with it"
            n["put"] += 1
        return None

    lab = "relative link, %s" % ("image being parsed" if given else "no image")
    ck.case(lab, c, f)
    if not n["walk"]:
        raise Undecided("no path follows the link")
    if not n["put"]:
        ck.bad(lab + ": replacement", c.where(), "the link's entry is never replaced by the node it leads to")
    else:
        ck.ok(lab + ": replacement")


def entry_of(v):
    """(key, new value) of a map with one entry replaced"""
    if v.op == "mapins":
        return v.a[1], v.a[2]
    return None, None


def changed(o, c, w, me, par, img):
    """[(where, pointer, children map)] of the children maps that differ from the start"""
    res = []
    now = w.field(o.st, par, w.CH)
    was = w.field(c.st, par, w.CH)
    if now is not was and not o.same(now, was):
        res.append(("parent", par, now))
    if img is not None:
        now, was = o.fld(img, w.CH), c.fld(img, w.CH)
        if now is not was and not o.same(now, was):
            res.append(("image", img, now))
    return res


def check(ck):
    for fn, rel, parsed in (("at_path", False, False), ("at_path_relative", True, False), ("at_path_parsed", False, True)):
        ck.guard(fn, path_walk, ck, fn, N + "::" + fn, rel, parsed)
    ck.guard("image above", upward, ck, "enclosing image", N + "::get_parent_wz_image", lambda st, w, n: is_kind(ck, st, w, n, "Image"))

    def base(st, w, n):
        k = is_kind(ck, st, w, n, "File")
        if k is False:
            return False
        b = is_base(st, w, n)
        if b is False:
            return False
        return True if k and b else None

    ck.guard("base above", upward, ck, "base file", N + "::get_base_wz_file", base)
    ck.guard("inlink", link, ck, "inner link", "resolve_inlink", "image")
    for fl in (True, False):
        ck.guard("outlink", link, ck, "outer link%s" % (", parsing" if fl else ""), "resolve_outlink", "base", fl)
    for g in (False, True):
        ck.guard("relative link", uol, ck, g)
    ck.guard("single", single, ck)
    ck.guard("uol path", uolpath, ck)
    ck.guard("image on path", image_on_path, ck)
    ck.guard("without parse", without_parse, ck)


def single(ck):
    for fn, rel in (("at", False), ("at_relative", True)):
        c = ck.ctx(N + "::" + fn)
        w = Walk(ck, c)
        ch, pa = c.fld(c.a[0], w.CH), c.fld(c.a[0], w.PA)

        def f(o):
            if is_variant(o.ret, "Some"):
                return w.moves(o.st, [ch], pa, c.a[1], rel, o.ret.a[1][0])
            if is_variant(o.ret, "None"):
                return None if w.missing(o.st, [ch], pa, c.a[1], rel) else "nothing is found although the element is not missing"
            raise Undecided("result %s" % sh(o.ret))

        ck.case("one element: " + fn, c, f)


def uolpath(ck):
    c = ck.ctx(U + "get_resolved_uol_path")

    def f(o):
        base = find_parts(o, c.a[0])
        parts = find_parts(o, c.a[1])
        if base is None or parts is None:
            raise Undecided("the paths are not split")
        r = unload(o.ret)
        if not (r.op == "call" and r.a[0] == "join"):
            raise Undecided("result %s" % sh(r))
        v, sep = unload(r.a[1][0]), unload(r.a[1][1])
        if not (sep.op == "bytes" and sep.a[0] in ("/", b"/") or sep is SLASH):
            return "the elements are joined by %s" % sh(sep)
        for lp in loops(o):
            if v not in lp.init:
                continue
            idx = [p for p in lp.init if lp.init[p] is ZERO and all(same_in(b, s, t.add(p, ONE)) for s, b in zip(lp.steps[p], lp.backs)) and o.same(p, c.len(parts))]
            if not idx:
                raise Undecided("the loop over the link's elements is not recognised")
            p = idx[0]
            n = c.len(base)
            i0 = lp.init[v]
            if not o.same(c.len(i0), t.sub(n, ONE)):
                return "the link does not start at the parent: %s" % sh(i0)
            el = mk("elem", parts, p)
            for s, b in zip(lp.steps[v], lp.backs):
                w = Walk(ck, c)
                d = w.dots(b, el)
                one = None
                for q in b.bounds:
                    if q.op == "seqeq":
                        x, y = unload(q.a[0]), unload(q.a[1])
                        if y.op != "bytes":
                            x, y = y, x
                        if y.op == "bytes" and y.a[0] in (".", b".") and x is unload(el):
                            one = b.decide(q)
                ln = c.I.seqlen(v)
                if one is True:
                    if s is not v and not b_same(b, s, v):
                        return "a '.' element changes the path to %s" % sh(s)
                elif d is True and b.decide(t.le(ONE, ln)) is True:
                    if not (s.op == "sub" and s.a[0] is v and b_same(b, c.I.seqlen(s), t.sub(ln, ONE))):
                        return "'..' does not remove the last element: %s" % sh(s)
                elif d is False or d is True:
                    if not (s.op == "push" and s.a[0] is v and unload(s.a[1]) is unload(el)):
                        return "an element changes the path to %s" % sh(s)
                    if d is False and one is not False:
                        return "a '.' element is kept"
                else:
                    return "elements are handled without looking for '..'"
            return None
        raise Undecided("the path is not built in a recognised loop")

    ck.case("resolved path of a relative link", c, f)


def b_same(b, x, y):
    return same_in(b, x, y)


def image_on_path(ck):
    c = ck.ctx(U + "get_image_node_from_path")
    w = Walk(ck, c)
    root = c.seq(c.a[0])
    n = [0]

    def split_of(x):
        """(rest before, part index) when x is half of a split at '/'"""
        if x.op == "fld" and x.a[0].op == "vfld" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "str::split_once":
            call = x.a[0].a[0]
            s = unload(call.a[1][1])
            if s is SLASH or (s.op == "bytes" and s.a[0] in ("/", b"/")):
                return call.a[1][0], x.a[1]
        return None

    def onestep(st, x, rest, new, newrest):
        if new.op != "mapget":
            raise Undecided("next node %s" % sh(new))
        if new.a[0] is not w.field(st, x, w.CH):
            return "the child is looked up in %s, not in the node reached" % sh(new.a[0])
        k = split_of(unload(new.a[1]))
        if k is None:
            raise Undecided("the element %s" % sh(new.a[1]))
        if unload(k[0]) is not unload(rest) or k[1] != 0:
            return "the child looked up is %s, not the next element" % sh(new.a[1])
        r = split_of(unload(newrest))
        if unload(newrest) is unload(rest):
            return "the rest of the path stays the same"
        if r is None:
            raise Undecided("the rest %s" % sh(newrest))
        if unload(r[0]) is not unload(rest) or r[1] != 1:
            return "the rest of the path becomes %s" % sh(newrest)

    def f(o):
        pairs = []
        for lp in loops(o):
            for x in lp.init:
                if unload(lp.init[x]) is not unload(root):
                    continue
                for r in lp.init:
                    if unload(lp.init[r]) is not unload(c.a[1]):
                        continue
                    for s, q, b in zip(lp.steps[x], lp.steps[r], lp.backs):
                        m = onestep(b, x, r, s, q)
                        if m:
                            return m
                        if is_kind(ck, b, w, s, "Image") is not False:
                            return "the search goes on past an image"
                    pairs.append((x, r))
        if is_variant(o.ret, "Some"):
            v, rest = o.ret.a[1][0].a[1]
            for x, r in pairs or [(root, c.a[1])]:
                m = onestep(o.st, x, r, v, rest)
                if m:
                    return m
                if is_kind(ck, o.st, w, v, "Image") is not True:
                    return "a node is returned that is not an image"
                n[0] += 1
                return None
        return None

    ck.case("image on a path", c, f)
    if not n[0]:
        raise Undecided("no image is found in a recognised way")


def without_parse(ck):
    op = {U + "get_image_node_from_path": lambda c: [("ret", c.st.fork(), t.some(t.tuple_(mk("call", "image-of", ()), mk("call", "rest-of", ())))), ("ret", c.st, t.NONE)], N + "::at_path": optnode("at-path"), IM + "::at_path": resnode("direct")}
    c = ck.ctx(U + "get_node_without_parse", opaque=op)
    w = Walk(ck, c)
    seen = set()

    def f(o):
        ev = [e.r for e in o.st.trace if e.r[0] == "call"]
        img, rest = mk("call", "image-of", ()), mk("call", "rest-of", ())
        for r in ev:
            if r[1] in ("at-path", "direct"):
                if unload(r[2][1]) is not rest:
                    return "the path looked up in the image is %s, not the rest" % sh(r[2][1])
                if not any(True for _ in t.atoms(r[2][0], lambda y: y is img)):
                    return "the rest is looked up in %s, not in the image" % sh(r[2][0])
                p = [y for x in o.st.bounds for y in t.atoms(x, lambda y: y.op == "fld" and y.a[1] == ck.fi(IM, "is_parsed"))]
                d = o.st.decide(p[0]) if p else None
                if d is None:
                    raise Undecided("whether the image is parsed is not settled")
                if d and r[1] == "direct":
                    return "a parsed image is read from the file again"
                if not d and r[1] == "at-path":
                    return "an image that is not parsed is searched for children"
                seen.add(r[1])
        if is_variant(o.ret, "Some"):
            if not any(o.ret.a[1][0] is mk("call", r[1], r[2]) for r in ev if r[1] in ("at-path", "direct")):
                return "the node found is %s" % sh(o.ret)

    ck.case("lookup without parsing", c, f)
    if seen != {"at-path", "direct"}:
        ck.bad("lookup without parsing: both ways", c.where(), "only %s is ever used" % ", ".join(sorted(seen)))
