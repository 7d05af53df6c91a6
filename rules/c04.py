"""Property records: the record parser is interpreted for each property code and each extended
kind, with every nested record a contract. For each code the value built and the place where the
cursor ends are compared with the format's encoding; every other code must be an error; a block
must resume exactly at the end its size gives, whatever happened inside it. The list parser must
hand name, code and position of every record on in file order."""
from .records import *

FLOOR = 15
NUM = {0: ("Null", None), 2: ("Short", "read_i16"), 11: ("Short", "read_i16"), 3: ("Int", "read_wz_int"), 19: ("Int", "read_wz_int"), 20: ("Long", "read_wz_int64"), 5: ("Double", "read_double")}
ALL = set(NUM) | {4, 8, 9}


def check(ck):
    ck.guard("anchors", lambda: [ck.fn(f) for f in (LIST, NODE, EXT)])
    for code in sorted(NUM):
        ck.guard("code %d" % code, plain, ck, code)
    ck.guard("code 4", floating, ck)
    ck.guard("code 8", text, ck)
    ck.guard("code 9", block, ck)
    ck.guard("unknown codes", unknown, ck)
    ck.guard("extended kinds", extended, ck)
    ck.guard("record lists", lists, ck)


def code_is(code):
    return lambda r: r.c.assume(t.eq(r.c.a[r.A["code"]], Int(code)))


def judge(ck, label, r, f):
    """f(o) for every path that returns"""
    w = r.c.where()
    if not any(o.is_ok() for o in r.rets) and f is not None:
        ck.bad(label, w, "%s: no path accepts the record" % label)
        return
    und = None
    for o in r.rets:
        try:
            m = f(o)
        except Undecided as e:
            und = und or e
            continue
        if m:
            ck.bad(label, w, "%s: %s\n    path: %s" % (label, m, o.pathdesc()))
            return
    if und:
        raise und
    ck.ok(label, r.rets[0].show())


def name_of(r, o, want):
    I = o.ctx.I
    n = r.node(o)["name"]
    a, b = I.proj(o.st, n, ("f", 0)), I.proj(o.st, want, ("f", 0))
    if not (o.same(n, want) or o.same(a, b) or o.same(I.content(o.st, a), I.content(o.st, b))):
        raise Undecided("the node is named %s" % sh(n))


def value(r, o, *names):
    v = r.node(o)["object_type"]
    x = inner(v, *names)
    if x is None:
        if v.op != "agg":
            raise Undecided("content %s" % sh(v))
        return "the record becomes %s, expected %s" % (sh(v), "(".join(names) + ")" * (len(names) - 1)), None
    return None, x


def resumes(r, o, q, what="the record"):
    p = r.at(o)
    if o.same(p, q):
        return None
    return want_eq(o, p, q, "the position after " + what)


def refused(o):
    if o.is_err() and not failed_read(o):
        return "a well-formed record is refused with %s" % sh(o.ret)
    return None


def plain(ck, code):
    kind, read = NUM[code]
    r = Rec(ck, NODE, EXT, pre=code_is(code))
    want = r.rd(read, r.pos) if read else None
    q = r.end(read, r.pos) if read else r.pos

    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Value", kind)
        if m:
            return m
        if want is not None:
            m = want_eq(o, x, want, "the value of a record of code %d" % code)
        name_of(r, o, r.c.a[r.A["name"]])
        return m or resumes(r, o, q)

    judge(ck, "code %d" % code, r, f)


def floating(ck):
    for long in (True, False):
        def pre(r):
            code_is(4)(r)
            r.c.assume(t.eq(lev(1, False, r.buf, r.pos), Int(0x80)), long)

        r = Rec(ck, NODE, EXT, pre=pre)
        b = lev(1, False, r.buf, r.pos)
        t.settype(b, "u8")
        p1 = t.add(r.pos, ONE)

        def f(o):
            if not o.is_ok():
                return refused(o)
            m, x = value(r, o, "Value", "Float")
            if m:
                return m
            if long:
                return want_eq(o, x, r.rd("read_float", p1), "the number") or resumes(r, o, t.add(r.pos, Int(5)))
            m = want_eq(o, x, mk("i2f", b, "f32"), "the number")
            if m:
                return m
            return resumes(r, o, p1)

        ck.guard("code 4", judge, ck, "code 4, %s" % ("full number" if long else "small number"), r, f)


def text(ck):
    r = Rec(ck, NODE, EXT, pre=code_is(8))
    m0 = r.rd("read_wz_string_block_meta", r.pos, r.origin)

    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Value", "String")
        return m or string_at(r, o, x, m0) or resumes(r, o, r.end("read_wz_string_block_meta", r.pos, r.origin))

    judge(ck, "code 8", r, f)


def string_at(r, o, x, meta):
    """the string value remembers the location read"""
    ck, I = r.ck, o.ctx.I
    W = "property::string::WzString"
    for fl in ("offset", "length", "string_type"):
        got = I.proj(o.st, x, ("f", ck.fi(W, fl)))
        want = I.proj(o.st, meta, ("f", ck.fi(META, fl)))
        if not o.same(got, want):
            m = want_eq(o, got, want, "the %s of the string" % fl)
            if m:
                return m
    return None


def block(ck):
    r = Rec(ck, NODE, EXT, pre=code_is(9))
    n = r.rd("read_u32", r.pos)
    body = t.add(r.pos, Int(4))
    q = t.add(body, n)
    seen = set()

    def f(o):
        evs = [e for e in o.st.trace if e.r[0] == "call" and e.r[1] in ("ext", "ext:failed")]
        if not evs:
            if o.is_ok():
                return "a block is accepted without being looked at"
            return refused(o)
        if len(evs) > 1:
            raise Undecided("the block is parsed more than once")
        e = evs[0]
        A = ARGS[EXT]
        a = e.r[2]
        at, args = a[0], a[1:]
        if not o.same(at, body):
            return want_eq(o, at, body, "the start of the block's content")
        m = want_eq(o, args[A["block"]], q, "the end handed to the block's parser")
        if m:
            return m
        if args[A["origin"]] is not r.origin and not o.same(args[A["origin"]], r.origin):
            return "the base offset handed on is %s" % sh(args[A["origin"]])
        if e.r[1] == "ext":
            seen.add("ok")
            if not o.is_ok():
                return "a block that was parsed is refused with %s" % sh(o.ret)
            got = o.okval()
            want = mk("call", "ext-node", (at, args[A["parent"]]))
            if not o.same(got, want):
                for i in range(3):
                    x, y = o.ctx.I.proj(o.st, got, ("f", i)), o.ctx.I.proj(o.st, want, ("f", i))
                    if not o.same(x, y):
                        if x.op in ("ref",) and i == 1:
                            return "the record is not the node that was parsed but %s" % sh(x)
                        raise Undecided("the result %s" % sh(got))
            return resumes(r, o, q, "a block")
        err = mk("call", "ext-err", (at,))
        d = mk("discr", err)
        ue = ck.vi(ERR, "UnknownExtendedPropertyType")
        isunk = o.st.decide(t.eq(d, Int(ue)))
        if isunk is None:
            if o.is_err():
                return "a block of an unknown kind is an error"
            return "a block that could not be read is accepted"
        if isunk:
            seen.add("unknown")
            if not o.is_ok():
                return "a block of an unknown kind is an error"
            m, _ = value(r, o, "Value", "Null")
            return m or resumes(r, o, q, "a block of an unknown kind")
        seen.add("failed")
        if o.is_ok():
            return "a block that could not be read is accepted"
        return None

    judge(ck, "code 9", r, f)
    for k in ("ok", "unknown", "failed"):
        if k not in seen:
            ck.unsure("code 9", "no path for a block that is %s" % k)


def unknown(ck):
    def pre(r):
        for k in ALL:
            r.c.assume(t.eq(r.c.a[r.A["code"]], Int(k)), False)

    r = Rec(ck, NODE, EXT, pre=pre)
    for o in r.rets:
        if not o.is_err():
            ck.bad("unknown codes", r.c.where(), "a record of an unknown code is accepted as %s\n    path: %s" % (sh(o.ret), o.pathdesc()))
            return
    if not r.rets:
        raise Undecided("no path returns for unknown codes")
    ck.ok("unknown codes", r.rets[0].show())


def extended(ck):
    r = Rec(ck, EXT, EXT, LIST)
    K = r.end("read_wz_string_block", r.pos, r.origin)
    by = {k: [] for k in KINDS + [None]}
    for o in r.rets:
        k = r.kind(o)
        if k is False:
            if o.is_ok():
                raise Undecided("kind of %s" % o.show())
            continue
        by[k].append(o)

    class Sub:
        c = r.c

    for k in KINDS:
        s = Sub()
        s.rets = by[k]
        ck.guard("kind " + k, judge, ck, "kind " + k, s, SPEC[k](ck, r, K))
    for o in by[None]:
        if o.is_ok():
            ck.bad("unknown kinds", r.c.where(), "a block of an unknown kind is accepted as %s" % o.show())
            return
        if not failed_read(o) and not is_variant(o.ret.a[1][0], "UnknownExtendedPropertyType"):
            if o.ret.a[1][0].op == "agg":
                ck.bad("unknown kinds", r.c.where(), "a block of an unknown kind is reported as %s and not skipped" % o.show())
                return
            raise Undecided("error %s" % o.show())
    ck.ok("unknown kinds")


def nested(r, o, at):
    """(message, end) of the list of records nested in this one, if it was read"""
    evs = [e for e in o.st.trace if e.r[0] == "call" and e.r[1] == "list"]
    if not evs:
        return None, None, None
    if len(evs) > 1:
        raise Undecided("several nested lists")
    a = evs[0].r[2]
    q, args = a[0], a[1:]
    A = ARGS[LIST]
    m = None
    if not o.same(q, at):
        m = want_eq(o, q, at, "the start of the nested records")
    if not m and not o.same(args[A["origin"]], r.origin):
        m = "the base offset handed to the nested records is %s" % sh(args[A["origin"]])
    return m, mk("call", "end:list", (q,)), mk("call", "kids", (q, args[A["parent"]]))


def kids_filed(r, o, lst):
    """every nested record becomes a child under its name"""
    from .c10 import filed

    ch = r.node(o)["children"]
    if lst is None:
        return None if ch.op in ("mapempty", "empty") else "children appear although there are no nested records: %s" % sh(ch)
    return filed(o, r.c, ch, mk("mapempty"), lst)


def spec_property(ck, r, K):
    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Property", "Property")
        if m:
            return m
        m, q, lst = nested(r, o, t.add(K, Int(2)))
        if m:
            return m
        if lst is None:
            return "the nested records are not read"
        return kids_filed(r, o, lst) or resumes(r, o, q)

    return f


def flagged(r, o, flags, start):
    """where the content goes on behind an optional list announced by flag bytes that must be 1"""
    m, q, lst = nested(r, o, t.add(start, Int(2)))
    if m:
        return m, None, None
    have = [o.st.decide(t.eq(b, ONE)) for b in flags]
    if all(h is True for h in have):
        if lst is None:
            return "announced children are not read", None, None
    elif any(h is False for h in have):
        if lst is not None:
            return "children are read although none are announced", None, None
        q = start
    else:
        return "whether there are children does not depend on the flag", None, None
    return None, q, lst


def u8(r, p):
    b = r.rd("read_u8", p)
    t.settype(b, "u8")
    return b


def spec_canvas(ck, r, K):
    W = "property::png::WzPng"

    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Property", "PNG")
        if m:
            return m
        I = o.ctx.I
        m, q, lst = flagged(r, o, [u8(r, t.add(K, ONE))], t.add(K, Int(2)))
        if m:
            return m
        m = kids_filed(r, o, lst)
        if m:
            return m
        png = boxed_at(o, x)
        want = {}
        for n in ("width", "height", "format1"):
            want[n] = r.rd("read_wz_int", q)
            q = r.end("read_wz_int", q)
        want["format2"] = r.rd("read_i8", q)
        q = t.add(q, ONE)
        want["pages"] = r.rd("read_wz_int", q)
        q = r.end("read_wz_int", q)
        q = r.end("read_wz_int", q)
        q = t.add(q, Int(2 + 4 + 1))
        want["header"] = r.rd("read_u16", q)
        m = fields(ck, r, o, png, W, want)
        return m or resumes(r, o, t.add(q, Int(2)))

    return f


def boxed_at(o, x):
    """the value behind the box held by a content"""
    I = o.ctx.I
    y = x
    for _ in range(4):
        if y.op in ("ref", "cref"):
            root, pth = I.target(y)
            return I.load(o.st, root, pth)
        if y.op == "agg" and len(y.a[1]) >= 1 and y.a[0][0] == "adt" and y.a[0][1] not in ("property::png::WzPng", "property::sound::WzSound"):
            y = y.a[1][0]
            continue
        break
    return y


def fields(ck, r, o, v, W, want):
    """fields of a payload record hold the numbers read (converted to their type)"""
    I = o.ctx.I
    for n, w in want.items():
        try:
            fi = ck.fi(W, n)
        except Missing as e:
            raise Undecided("no %s" % e)
        got = I.proj(o.st, v, ("f", fi))
        if not any(o.same(got, x) for x in [w] + [t.wrap(w, u) for u in ("u32", "i32", "u64")]):
            m = want_eq(o, got, t.wrap(w, "u32"), "the %s" % n)
            if m:
                return m
    return None


def spec_convex(ck, r, K):
    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Property", "Convex")
        if m:
            return m
        n = r.rd("read_wz_int", K)
        p0 = r.end("read_wz_int", K)
        if o.st.decide(t.le(n, ZERO)) is True:
            return kids_filed(r, o, None) or resumes(r, o, p0)
        return convex_loop(r, o, n, p0)

    return f


def convex_loop(r, o, n, p0):
    """points are parsed one behind the other and filed under their number"""
    I = o.ctx.I
    A = ARGS[EXT]
    lps = [lp for lp in loops(o) if any(e.r[0] == "call" and e.r[1] == "ext" for b in lp.backs for e in b.trace)]
    if len(lps) != 1:
        if not lps:
            return "the points are not parsed"
        raise Undecided("points are parsed in several loops")
    lp = lps[0]
    ch = r.node(o)["children"]
    cnt = None
    for phi, init in lp.init.items():
        if init is ZERO and all(same_in(b, s, t.add(phi, ONE)) for s, b in zip(lp.steps[phi], lp.backs)):
            cnt = phi
            if o.same(phi, n):
                break
    for b in lp.backs:
        es = [e for e in b.trace if e.r[0] == "call" and e.r[1] == "ext"]
        if len(es) != 1:
            raise Undecided("points parsed in one turn: %d" % len(es))
        at, args = es[0].r[2][0], es[0].r[2][1:]
        if at not in lp.init:
            raise Undecided("a point is parsed at %s" % sh(at))
        if not o.same(lp.init[at], p0):
            return want_eq(o, lp.init[at], p0, "the position of the first point") or None
        nxt = lp.steps[at][lp.backs.index(b)]
        if not same_in(b, nxt, mk("call", "end:ext", (at,))):
            raise Undecided("the next point is read at %s" % sh(nxt))
        nm = args[A["name"]]
        if not same_in(b, args[A["origin"]], r.origin):
            return "the base offset handed to a point is %s" % sh(args[A["origin"]])
        node = mk("call", "ext-node", (at, args[A["parent"]]))
        if ch not in lp.init:
            return "the points do not become children"
        s = lp.steps[ch][lp.backs.index(b)]
        if same_in(b, s, ch):
            return "a point is dropped"
        if s.op != "mapins" or s.a[0] is not ch or not same_in(b, bare(s.a[2]), bare(I.proj(b, node, ("f", 1)))):
            raise Undecided("a step of the children: %s" % sh(s))
        if lp.init[ch].op not in ("mapempty", "empty"):
            raise Undecided("children start as %s" % sh(lp.init[ch]))
        if cnt is not None:
            txt = [y for y in numbered(I, b, nm)]
            if not txt:
                raise Undecided("the name of a point: %s" % sh(nm))
            if not any(y is cnt or same_in(b, y, cnt) for y in txt):
                m = None
                y = txt[0]
                if b.decide(t.eq(y, cnt)) is False or (t.sub(y, cnt).op == "int"):
                    return "the points are numbered by %s" % sh(y)
                raise Undecided("the points are numbered by %s" % sh(y))
    m = want_turns(o, lp, n, "the number of points parsed")
    if m:
        return m
    if cnt is None:
        raise Undecided("how the points are numbered")
    return resumes(r, o, next(p for p in lp.init if o.same(lp.init[p], p0) and any(x.op == "call" and x.a[0] == "end:ext" for x in lp.steps[p])), "the points")


def numbered(I, st, nm):
    """the numbers whose text the name is"""
    v = nm
    for _ in range(4):
        if v.op in ("ref", "cref"):
            root, pth = I.target(v)
            v = I.load(st, root, pth)
        elif v.op == "agg" and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            break
    return [y.a[1][-1] for y in t.atoms(v, lambda y: y.op == "call" and y.a[0] == "to_string")]


def spec_vector(ck, r, K):
    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Value", "Vector")
        if m:
            return m
        q = r.end("read_wz_int", K)
        I = o.ctx.I
        V = "property::vector::Vector2D"
        return (
            want_eq(o, I.proj(o.st, x, ("f", 0)), r.rd("read_wz_int", K), "the first coordinate")
            or want_eq(o, I.proj(o.st, x, ("f", 1)), r.rd("read_wz_int", q), "the second coordinate")
            or resumes(r, o, r.end("read_wz_int", q))
        )

    return f


def spec_sound(ck, r, K):
    W = "property::sound::WzSound"

    def f(o):
        if not o.is_ok():
            if out_of_file(o):
                return None
            return refused(o)
        m, x = value(r, o, "Property", "Sound")
        if m:
            return m
        q = t.add(K, ONE)
        q2 = r.end("read_wz_int", q)
        return fields(ck, r, o, boxed_at(o, x), W, {"length": r.rd("read_wz_int", q), "duration": r.rd("read_wz_int", q2)})

    return f


def spec_uol(ck, r, K):
    def f(o):
        if not o.is_ok():
            return refused(o)
        m, x = value(r, o, "Value", "UOL")
        q = t.add(K, ONE)
        return m or string_at(r, o, x, r.rd("read_wz_string_block_meta", q, r.origin)) or resumes(r, o, r.end("read_wz_string_block_meta", q, r.origin))

    return f


def spec_raw(ck, r, K):
    def f(o):
        if not o.is_ok():
            if out_of_file(o):
                return None
            return refused(o)
        m, x = value(r, o, "Value", "RawData")
        if m:
            return m
        q, lst = raw_start(r, o, K)
        if isinstance(q, str):
            return q
        return kids_filed(r, o, lst) or resumes(r, o, r.end("read_wz_int", q), "the header")

    return f


def raw_start(r, o, K):
    """where the size of a raw block is, behind version, child flag and children"""
    v = u8(r, K)
    d = o.st.decide(t.eq(v, ONE))
    if d is False:
        if nested(r, o, K)[2] is not None:
            return "children are read although the version has none", None
        return t.add(K, ONE), None
    if d is None:
        return "the layout does not depend on the version", None
    m, q, lst = flagged(r, o, [u8(r, t.add(K, ONE))], t.add(K, Int(2)))
    return m or q, lst


def spec_video(ck, r, K):
    def f(o):
        if not o.is_ok():
            if out_of_file(o):
                return None
            return refused(o)
        m, x = value(r, o, "Value", "Video")
        return m or resumes(r, o, r.end("read_wz_int", t.add(K, Int(3))), "the header")

    return f


SPEC = {"Property": spec_property, "Canvas": spec_canvas, "Shape2D#Convex2D": spec_convex, "Shape2D#Vector2D": spec_vector, "Sound_DX8": spec_sound, "UOL": spec_uol, "RawData": spec_raw, "Canvas#Video": spec_video}


def lists(ck):
    r = Rec(ck, LIST, NODE)
    n = r.rd("read_wz_int", r.pos)
    p0 = r.end("read_wz_int", r.pos)
    A = ARGS[NODE]
    I = r.c.I

    def f(o):
        if not o.is_ok():
            return refused(o)
        out = I.proj(o.st, o.okval(), ("f", 0))
        if o.st.decide(t.le(n, ZERO)) is True:
            if o.same(I.seqlen(out), ZERO):
                return resumes(r, o, p0, "an empty list")
            return "an empty list gives %s" % sh(out)
        lps = [lp for lp in loops(o) if any(e.r[0] == "call" and e.r[1] == "node" for b in lp.backs for e in b.trace)]
        if not lps:
            return "the records are not parsed"
        if len(lps) > 1:
            raise Undecided("several loops over the records")
        lp = lps[0]
        curs = None
        for b in lp.backs:
            i = lp.backs.index(b)
            es = [e for e in b.trace if e.r[0] == "call" and e.r[1] == "node"]
            if len(es) != 1:
                raise Undecided("%d records in one turn" % len(es))
            at, args = es[0].r[2][0], es[0].r[2][1:]
            cur = [p for p in lp.init if o.same(lp.init[p], p0)]
            if len(cur) != 1:
                raise Undecided("the position of the first record")
            cur = curs = cur[0]
            q = r.end("read_wz_string_block", cur, r.origin)
            nm, cd = r.rd("read_wz_string_block", cur, r.origin), r.rd("read_u8", q)
            if not same_in(b, at, t.add(q, ONE)):
                return "the content of a record is read at %s" % sh(at)
            if not same_in(b, args[A["code"]], cd):
                return "the code of a record is %s" % sh(args[A["code"]])
            got = args[A["name"]]
            if not (same_in(b, got, nm) or t.atoms(b.deep(got), lambda y: bare(y) is nm) or nm in names_of(I, b, got)):
                raise Undecided("the name of a record is %s" % sh(got))
            if not same_in(b, args[A["origin"]], r.origin):
                return "the base offset handed to a record is %s" % sh(args[A["origin"]])
            nxt = lp.steps[cur][i]
            if not same_in(b, nxt, mk("call", "end:node", (at,))):
                raise Undecided("the next record is read at %s" % sh(nxt))
            if out not in lp.init:
                raise Undecided("the list %s" % sh(out))
            s = lp.steps[out][i]
            if same_in(b, s, out):
                return "a record is dropped from the list"
            node = mk("call", "node-node", (at, args[A["parent"]]))
            if s.op != "push" or s.a[0] is not out:
                raise Undecided("a step of the list: %s" % sh(s))
            for k in (0, 1):
                if not same_in(b, bare(I.proj(b, s.a[1], ("f", k))), bare(I.proj(b, node, ("f", k)))):
                    return "what is listed is %s" % sh(s.a[1])
        if not o.same(I.seqlen(lp.init[out]), ZERO):
            raise Undecided("the list starts as %s" % sh(lp.init[out]))
        m = want_turns(o, lp, n, "the number of records read")
        if m:
            return m
        return resumes(r, o, curs, "the list")

    judge(ck, "record lists", r, f)


def names_of(I, st, v):
    res = []
    for _ in range(4):
        res.append(bare(v))
        if v.op in ("ref", "cref"):
            root, pth = I.target(v)
            v = I.load(st, root, pth)
        elif v.op == "agg" and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            break
    res.append(bare(v))
    return res
