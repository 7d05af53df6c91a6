"""Parse state: parsing and clearing a node are interpreted for every kind of content, with the
step that reads the children as an event that may fail. Success must mark the content parsed and
file exactly the children returned; failure must leave flag, children and kind as they were; a
parsed container is left alone; clearing drops flag, children and internal progress; and a failed
reading of a directory keeps nothing that would make a later one skip its entries."""
from .lib import *
from .c14 import forks as quiet
from .grammar import reader_models

FLOOR = 12
N = "node::WzNode"
OT = "object::WzObjectType"
D = "directory::WzDirectory"
DE = "directory::WzDirectoryEntry"
VS = "directory::WzDirectoryVerifyStatus"
FLAG = {"Directory": D, "File": "file::WzFile", "MsFile": "ms::file::MsFile", "Image": "wz_image::WzImage"}
STEP = {
    "Directory": D + "::resolve_children",
    "File": "file::WzFile::parse",
    "MsFile": "ms::file::MsFile::parse",
    "Image": "wz_image::WzImage::resolve_children",
}
UOL = "util::node_util::resolve_uol"


def step(kind):
    """reading the children: succeeds with some list, or fails; a file may note it was parsed itself"""

    def m(c):
        what = c.I.content(c.st, c.args[0])
        f = c.st.fork()
        c.I.event(c.st, "read:ok", (mk("str", kind), what, *c.args[1:]), c.span)
        c.I.event(f, "read:failed", (mk("str", kind), what, *c.args[1:]), c.span)
        return [("ret", c.st, t.ok(mk("call", "children-of", (mk("str", kind),)))), ("ret", f, t.err(mk("call", "read-error", (mk("str", kind),))))]

    return m


def models(ck):
    op = {fn: step(k) for k, fn in STEP.items()}

    def uol(c):
        c.I.event(c.st, "link", tuple(c.I.content(c.st, a) if a.op == "ref" else a for a in c.args), c.span)
        return c.ret(UNIT)

    op[UOL] = uol
    for b in ck.prog().bodies:
        if b.path.endswith("MsImage::to_wz_image"):
            op[b.path] = towz(ck.fi(FLAG["Image"], "is_parsed"))
    return op


def towz(flag):
    """the image made of an entry: not parsed yet"""

    def m(c):
        v = mk("call", "image-of", (c.I.content(c.st, c.args[0]),))
        return c.ret(mk("upd", v, ((("f", flag), ZERO),)))

    return m


def check(ck):
    variants = [v["name"] for v in ck.prog().adts[OT]["variants"]] if OT in ck.prog().adts else []
    if not variants:
        ck.unsure("content kinds", "type %s not found" % OT)
        return
    for v in variants:
        ck.guard("parse %s" % v, parse, ck, v, variants)
        ck.guard("clear %s" % v, clear, ck, v)
    ck.guard("failed directory", directory, ck)
    ck.guard("directory progress", progress, ck)


def parse(ck, kind, variants):
    CH, OB = ck.fi(N, "children"), ck.fi(N, "object_type")
    vi = ck.vi(OT, kind)
    states = (0, 1) if kind in FLAG else (None,)
    for was in states:
        c = ck.ctx(N + "::parse", opaque=models(ck))
        ob0 = c.fld(c.a[0], OB)
        c.assume(t.eq(mk("discr", ob0), Int(vi)))
        ch0 = c.fld(c.a[0], CH)
        flag = ck.fi(FLAG[kind], "is_parsed") if kind in FLAG else None
        if was is not None:
            root = mk("deref", c.I.proj(c.st, c.I.proj(c.st, ob0, ("vf", vi, 0)), ("f", 0)))
            c.I.store(c.st, root, (("f", flag),), Int(was))
        before = boxed(c, c.st, ob0, vi) if kind in FLAG or kind == "MsImage" else None
        lab = "parse %s%s" % (kind, {0: "", 1: ", parsed already", None: ""}[was])

        def f(o):
            reads = [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1].startswith("read:")]
            ch, ob = o.fld(c.a[0], CH), o.fld(c.a[0], OB)
            same_ch = o.same(ch, ch0)
            if kind not in FLAG and kind != "MsImage":
                if reads or not same_ch or not o.same(ob, ob0):
                    return "a node without content to parse is changed"
                return None if o.is_ok() else "parsing a node without content is an error"
            if was == 1:
                if reads:
                    return "a parsed container is read again"
                if not o.is_ok():
                    return "parsing a parsed container is an error"
                if not same_ch or not o.same(ob, ob0) or not o.same(boxed(c, o.st, ob, vi), before):
                    return "parsing a parsed container changes it"
                return None
            if len(reads) != 1:
                if not reads and o.is_ok():
                    return "an unparsed container is not read and yet the parse succeeds"
                raise Undecided("%d reads of the children" % len(reads))
            r = reads[0]
            img = "Image" if kind == "MsImage" else kind
            if o.is_err():
                if not same_ch:
                    return "a failed parse changes the children: %s" % sh(ch)
                if not o.same(ob, ob0):
                    return "a failed parse changes the kind of content"
                if kind in FLAG and not o.same(c.I.proj(o.st, boxed(c, o.st, ob, vi), ("f", flag)), ZERO):
                    return "a failed parse leaves the container marked as parsed"
                if r[1] != "read:failed":
                    return "the parse fails although its children were read"
                return None
            if not o.is_ok():
                raise Undecided("result %s" % sh(o.ret))
            if r[1] == "read:failed":
                return "the parse succeeds although its children could not be read"
            fl = ck.fi(FLAG[img], "is_parsed")
            iv = ck.vi(OT, img)
            if kind == "MsImage" and not is_variant(ob, "Image"):
                return "a parsed entry image stays what it was and would be parsed again: %s" % sh(ob)
            val = c.I.proj(o.st, boxed(c, o.st, ob, iv), ("f", fl))
            if not o.same(val, ONE):
                if o.st.decide(t.eq(val, ZERO)) is True:
                    return "a successful parse does not mark the container as parsed"
                from absint import witness
                witness.FREE |= {"children-of", "image-of"}
                m = want_eq(o, val, ONE, "the mark of a successfully parsed container")
                if m:
                    return m
            lst = mk("call", "children-of", (mk("str", img),))
            links = None
            if img == "Image":
                lst, links = c.I.proj(o.st, lst, ("f", 0)), c.I.proj(o.st, lst, ("f", 1))
            m = filed(o, c, ch, ch0, lst)
            if m:
                return m
            if links is not None:
                return linked(o, c, links)

        ck.case(lab, c, f)


def filed(o, c, ch, ch0, lst):
    """the children are the old ones plus every element of the list under its name"""
    n = c.I.seqlen(lst)
    if o.same(ch, ch0):
        if o.st.decide(t.eq(n, ZERO)) is True:
            return None
        return "the children read are not filed"
    lps = [lp for lp in loops(o) if ch in lp.init]
    if not lps:
        raise Undecided("the children are %s" % sh(ch))
    lp = lps[0]
    if not same_in(o.st, lp.init[ch], ch0) and lp.init[ch].op not in ("mapempty", "empty"):
        raise Undecided("the children start out as %s" % sh(lp.init[ch]))
    idx = [phi for l, phi, _ in visits_all(o, [lst]) if l is lp]
    for s, b in zip(lp.steps[ch], lp.backs):
        if same_in(b, s, ch):
            return "a child that was read is not filed: when %s" % "; ".join("%s in %s" % (sh(y), r) for y, r in list(b.bounds.items())[-2:])
        if s.op != "mapins" or s.a[0] is not ch:
            raise Undecided("a step of the children: %s" % sh(s))
        hit = None
        for i in idx or list(lp.init):
            e = c.I.elem(b, lst, i)
            if same_in(b, s.a[1], c.I.proj(b, e, ("f", 0))) and same_in(b, bare(s.a[2]), bare(c.I.proj(b, e, ("f", 1)))):
                hit = i
        if hit is None:
            raise Undecided("what is filed is %s under %s" % (sh(s.a[2]), sh(s.a[1])))
    if not idx:
        m = misses(o, [lst])
        if m:
            return "children that were read are not filed: " + m
        raise Undecided("how many children are filed")
    return None


def linked(o, c, links):
    """every link found is handed to the resolver, with this node"""
    n = c.I.seqlen(links)
    if o.st.decide(t.eq(n, ZERO)) is True:
        return None
    has = lambda lp: [e for b in lp.backs for e in b.trace if e.r[0] == "call" and e.r[1] == "link"]
    lps = [lp for lp in loops(o) if has(lp)]
    if not lps:
        if any(e.r[0] == "call" and e.r[1] == "link" for e in o.st.trace):
            raise Undecided("links are resolved outside of a loop")
        return "the links of the image are not resolved"
    lp = lps[0]
    pos = [i for i, e in enumerate(o.st.trace) if e.r[0] == "loop" and e.r[1] is lp][0]
    ins = [i for i, e in enumerate(o.st.trace) if e.r[0] == "loop" and any(x.r[0] == "insert" for b in e.r[1].backs for x in b.trace)]
    if ins and min(ins) > pos:
        return "the links are resolved before the children are filed"
    idx = [phi for l, phi, _ in visits_all(o, [links]) if l is lp]
    for b in lp.backs:
        es = [e for e in b.trace if e.r[0] == "call" and e.r[1] == "link"]
        if not es:
            return "a link may be left unresolved: when %s" % "; ".join("%s in %s" % (sh(y), r) for y, r in list(b.bounds.items())[-2:])
    if not idx:
        m = misses(o, [links])
        if m:
            return "links are left unresolved: " + m
        raise Undecided("how many links are resolved")
    return None


def clear(ck, kind):
    CH, OB = ck.fi(N, "children"), ck.fi(N, "object_type")
    vi = ck.vi(OT, kind)
    c = ck.ctx(N + "::unparse")
    ob0 = c.fld(c.a[0], OB)
    ch0 = c.fld(c.a[0], CH)
    c.assume(t.eq(mk("discr", ob0), Int(vi)))

    def f(o):
        ch, ob = o.fld(c.a[0], CH), o.fld(c.a[0], OB)
        if kind not in FLAG:
            if not o.same(ch, ch0) or not o.same(ob, ob0):
                return "clearing changes a node that can not be parsed again"
            return None
        if not (ch.op in ("mapempty", "empty") or o.st.decide(t.eq(c.I.seqlen(entries(ch)), ZERO)) is True):
            return "the children stay: %s" % sh(ch)
        x = boxed(c, o.st, ob, vi)
        v = c.I.proj(o.st, x, ("f", ck.fi(FLAG[kind], "is_parsed")))
        if not o.same(v, ZERO):
            return "the container stays marked as parsed"
        if kind == "Directory":
            return fresh(o.st, c, ck, x, None)

    ck.case("clear %s" % kind, c, f)


def fresh(st, c, ck, x, table):
    """a directory whose next reading starts over, or goes on with the whole table"""
    s = c.I.proj(st, x, ("f", ck.fi(D, "verify_status")))
    e = c.I.proj(st, x, ("f", ck.fi(D, "entries")))
    if is_variant(s, "Init"):
        return None
    d = mk("discr", s) if s.op != "agg" else Int(s.a[0][2])
    if st.decide(t.eq(d, Int(ck.vi(VS, "Init")))) is True:
        return None
    if table is not None and same_in(st, bare(e), bare(table)) and is_variant(s, "EntryCreated"):
        return None
    if s.op == "agg" or table is None:
        return "the directory remembers progress (%s, entries %s), so reading it again would miss its entries" % (s.a[0][3] if s.op == "agg" else sh(s), sh(e))
    raise Undecided("progress is %s, entries %s" % (sh(s), sh(e)))


TABLE = mk("call", "entry-table", ())


def directory(ck):
    """a directory that fails after its entries were read"""
    SI, EI = ck.fi(D, "verify_status"), ck.fi(D, "entries")

    def prepare(c):
        f = c.st.fork()
        c.I.event(c.st, "prepare:ok", (), c.span)
        root, pth = c.I.target(c.args[0])
        c.I.store(c.st, root, pth + (("f", SI),), ck.mkenum(VS, "EntryCreated"))
        c.I.store(c.st, root, pth + (("f", EI),), TABLE)
        return [("ret", c.st, t.ok(UNIT)), ("ret", f, t.err(mk("call", "prepare-error", ())))]

    def made(name):
        return lambda c: c.ret(mk("call", name, tuple(c.I.content(c.st, a) for a in c.args)))

    op = {
        D + "::prepare_entries": prepare,
        D + "::calculate_offset_and_verify": quiet("verify"),
        DE + "::resolve_name": quiet("name", lambda c: mk("call", "entry-name", tuple(c.I.content(c.st, a) for a in c.args))),
        N + "::new": made("node"),
    }
    c = ck.ctx(D + "::resolve_children", opaque=op)
    c.I.store(c.st, *place(c, c.a[0], SI), ck.mkenum(VS, "Init"))
    failed = [0]

    def f(o):
        if not o.is_err():
            return None
        failed[0] += 1
        root, pth = c.I.target(c.a[0])
        return fresh(o.st, c, ck, c.I.load(o.st, root, pth), TABLE)

    ck.case("failed directory", c, f)
    if not failed[0]:
        ck.unsure("failed directory: errors", "no failing path seen")


def place(c, p, f):
    root, pth = c.I.target(p)
    return root, pth + (("f", f),)


def progress(ck):
    """a failed reading of the entry table itself"""
    SI, EI = ck.fi(D, "verify_status"), ck.fi(D, "entries")
    op = reader_models(ck)
    calc = [b.path for b in ck.prog().bodies if b.path.endswith("::get_entry_count_calculator")]

    def count(c):
        n = mk("call", "entry-count", tuple(c.I.content(c.st, a) for a in c.args[2:]))
        t.settype(n, "usize")
        return [("ret", c.st.fork(), t.ok(n)), ("ret", c.st, t.err(mk("call", "count-error", ())))]

    for p in calc:
        op[p] = lambda c: c.ret(mk("fn", "count", -1))
        op["count"] = count
    c = ck.ctx(D + "::prepare_entries", opaque=op)
    c.I.store(c.st, *place(c, c.a[0], SI), ck.mkenum(VS, "Init"))

    def f(o):
        root, pth = c.I.target(c.a[0])
        x = c.I.load(o.st, root, pth)
        if o.is_err():
            return fresh(o.st, c, ck, x, None)
        if o.is_ok():
            return fresh(o.st, c, ck, x, c.I.proj(o.st, x, ("f", EI)))

    ck.case("directory progress", c, f)
