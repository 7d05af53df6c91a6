"""Property records: exploration shared by the rules about records, payloads, parents and links.

The three mutually recursive parsing functions are cut apart: while one of them is interpreted the
others are events with a contract of their own, so that every record is decided whatever is nested
in it. All reading methods are grammar symbols (see grammar.py)."""
from .lib import *
from .grammar import *

PP = "util::parse_property::"
LIST, NODE, EXT = PP + "parse_property_list", PP + "parse_property_node", PP + "parse_extended_prop"
N = "node::WzNode"
OT = "object::WzObjectType"
ERR = PP + "WzPropertyParseError"
KINDS = ["Property", "Canvas", "Shape2D#Convex2D", "Shape2D#Vector2D", "Sound_DX8", "UOL", "RawData", "Canvas#Video"]
# position of the arguments: parent, main reader, cursor reader, base offset of shared strings
ARGS = {LIST: dict(parent=0, org=1, reader=2, origin=3), NODE: dict(name=0, code=1, parent=2, org=3, reader=4, origin=5), EXT: dict(parent=0, org=1, reader=2, block=3, origin=4, name=5)}


def parent_of(c, p):
    """the optional parent handed over, seen through its reference"""
    if is_variant(p, "Some"):
        x = p.a[1][0]
        return t.some(c.I.content(c.st, x)) if x.op in ("ref", "cref") else p
    return p


def step(ck, fn, tag):
    """a nested parse: fails, or gives a value and leaves the cursor somewhere behind it"""
    A = ARGS[fn]

    def m(c):
        I, st = c.I, c.st
        r, p = I.target(c.args[A["reader"]])
        cell = p + (("f", ck.fi(SR, "pos")), ("f", 0))
        pos = I.load(st, r, cell)
        par = parent_of(c, c.args[A["parent"]])
        f = st.fork()
        args = [par if i == A["parent"] else I.content(st, a) if i in (A.get("name"), A.get("code")) else a for i, a in enumerate(c.args)]
        ev = (pos,) + tuple(args)
        I.event(st, tag, ev, c.span)
        I.event(f, tag + ":failed", ev, c.span)
        out = []
        for s, what in ((st, "end:"), (f, "errpos:")):
            h = mk("call", what + tag, (pos,))
            t.settype(h, "usize")
            I.store(s, r, cell, h)
            if what == "end:":
                s.assume(t.le(pos, h), True)
                s.assume(t.le(h, FARPOS), True)
            out.append(h)
        if tag == "list":
            v = t.mk("agg", ("tuple",), (mk("call", "kids", (pos, par)), mk("call", "uols", (pos, par))))
        else:
            v = mk("call", tag + "-node", (pos, par))
        return [("ret", st, t.ok(v)), ("ret", f, t.err(mk("call", tag + "-err", (pos,))))]

    return m


def models(ck, *cut, record=False):
    op = reader_models(ck, record=record)
    for fn, tag in ((LIST, "list"), (NODE, "node"), (EXT, "ext")):
        if fn in cut:
            ck.fn(fn)
            op[fn] = step(ck, fn, tag)
    return op


class Rec:
    """one exploration of a parsing function"""

    def __init__(self, ck, fn, *cut, pre=None, record=False):
        self.ck, self.fn = ck, fn
        c = self.c = ck.ctx(fn, opaque=models(ck, *cut, record=record))
        A = self.A = ARGS[fn]
        self.reader = c.a[A["reader"]]
        self.parent = c.a[A["parent"]]
        self.org = c.a[A["org"]]
        self.origin = c.a[A["origin"]]
        self.pos = c.fld(self.reader, ck.fi(SR, "pos"), 0)
        t.settype(self.pos, "usize")
        bp = c.fld(self.reader, ck.fi(SR, "buf"))
        self.buf = c.I.content(c.st, bp.a[0] if bp.op == "at" else bp)
        c.assume(t.le(self.pos, Int(1 << 60)))
        if pre:
            pre(self)
        self.outs = c.run()
        ck.funcs |= c.I.inlined
        self.rets = [o for o in self.outs if o.kind == "ret"]

    def rd(self, name, pos, *extra):
        v = rd(name, self.buf, pos, *extra)
        if name in RTYPES:
            t.settype(v, RTYPES[name])
        return v

    def end(self, name, pos, *extra):
        v = end(name, self.buf, pos, *extra)
        if v.op != "lin":
            t.settype(v, "usize")
        return v

    def at(self, o):
        return o.fld(self.reader, self.ck.fi(SR, "pos"), 0)

    def kind(self, o):
        """the text of the extended kind on this path, None when it is none of the known ones"""
        x = self.rd("read_wz_string_block", self.pos, self.origin)
        res = []
        for k in KINDS:
            p, q = sorted((x, mk("bytes", k)), key=lambda z: z.id)
            d = o.st.decide(mk("seqeq", p, q))
            if d is True:
                return k
            if d is None:
                res.append(k)
        return None if not res else False

    def node(self, o, v=None):
        """(name, content, parent, children) of the node that is returned"""
        st, I, ck = o.st, o.ctx.I, self.ck
        if v is None:
            v = I.proj(st, o.okval(), ("f", 1))
        root, pth = I.target(v)
        return {f: I.load(st, root, pth + (("f", 0), ("f", ck.fi(N, f)))) for f in ("name", "object_type", "parent", "children")}


def failed_read(o):
    """an error that comes from reading or from a nested parse"""
    return bool(t.atoms(o.ret, lambda y: y.op == "call" and isinstance(y.a[0], str) and (y.a[0].startswith("read-error:") or y.a[0] in ("list-err", "ext-err", "node-err"))))


def out_of_file(o):
    return bool(t.atoms(o.ret, lambda y: is_variant(y, "OutOfBounds")))


def inner(v, *names):
    """the payload below a chain of enum variants, or a message"""
    for n in names:
        if not is_variant(v, n):
            return None
        v = v.a[1][0] if v.a[1] else UNIT
    return v
