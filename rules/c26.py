"""Typed accessors: every accessor is interpreted on a node holding each content kind in
turn (all variants of the content enums) and must yield exactly the payload of its own
kind and nothing for every other kind; each conversion into a content is interpreted and
asked back with the accessor of the converted type."""
from .lib import *

FLOOR = 450
N = "node::WzNode"
OT = "object::WzObjectType"
SP = "property::WzSubProperty"
WV = "property::WzValue"
AC = "<node::WzNode as node_cast::WzNodeCast>::"
ANY = lambda k: True
# accessor -> kinds it yields; a kind is (object variant, inner variant or None)
SOME = {
    "try_as_file": {("File", None)},
    "try_as_directory": {("Directory", None)},
    "try_as_image": {("Image", None)},
    "try_as_sub_property": "Property",
    "try_as_value": "Value",
    "try_as_png": {("Property", "PNG")},
    "try_as_sound": {("Property", "Sound")},
    "try_as_string": {("Value", "String"), ("Value", "UOL")},
    "try_as_uol": {("Value", "UOL")},
    "try_as_lua": {("Value", "Lua")},
    "try_as_raw_data": {("Value", "RawData")},
    "try_as_video": {("Value", "Video")},
    "try_as_vector2d": {("Value", "Vector")},
    "try_as_short": {("Value", "Short")},
    "try_as_int": {("Value", "Int")},
    "try_as_long": {("Value", "Long")},
    "try_as_float": {("Value", "Float")},
    "try_as_double": {("Value", "Double")},
}
BOOL = {"is_sub_property": ("Property", "Property"), "is_convex": ("Property", "Convex"), "is_null": ("Value", "Null")}
# conversion -> kind it makes
FROM = {
    "file::WzFile": ("File", None), "directory::WzDirectory": ("Directory", None), "wz_image::WzImage": ("Image", None),
    "ms::file::MsFile": ("MsFile", None), "ms::ms_image::MsImage": ("MsImage", None),
    "i16": ("Value", "Short"), "i32": ("Value", "Int"), "i64": ("Value", "Long"), "f32": ("Value", "Float"), "f64": ("Value", "Double"),
    "property::string::WzString": ("Value", "String"), "property::vector::Vector2D": ("Value", "Vector"),
    "property::raw_data::WzRawData": ("Value", "RawData"), "property::video::WzVideo": ("Value", "Video"), "property::lua::WzLua": ("Value", "Lua"),
    "property::png::WzPng": ("Property", "PNG"), "property::sound::WzSound": ("Property", "Sound"),
}


def kinds(ck):
    P = ck.prog()
    if OT not in P.adts:
        raise Missing("type " + OT)
    for v in P.adts[OT]["variants"]:
        inner = {"Property": SP, "Value": WV}.get(v["name"])
        if inner:
            for w in P.adts[inner]["variants"]:
                yield (v["name"], w["name"]), inner, bool(w["fields"])
        else:
            yield (v["name"], None), None, True


def content_of(ck, kind, inner, fields):
    """a content of that kind with an unconstrained payload"""
    pay = mk("sym", "payload", "%s/%s" % kind)
    o, i = kind
    if inner is None:
        return ck.mkenum(OT, o, (pay,)), pay
    iv = ck.mkenum(inner, i, (pay,) if fields else ())
    return ck.mkenum(OT, o, (iv,)), pay if fields else iv


def payload_matches(c, o, got, pay):
    """the returned reference points at the payload (through its box)"""
    x = bare(o.st.deep(c.I.content(o.st, got)))
    if o.same(x, bare(pay)):
        return True
    for y in (x, got):
        if any(z is pay for z in t.atoms(y, lambda z: z is pay)) and not other_syms(y, pay) and y.op in ("val", "fld", "ref"):
            return True
    return False


def other_syms(x, pay):
    return [y for y in t.atoms(x, lambda y: y.op == "sym" and y is not pay)]


def check(ck):
    oi = ck.fi(N, "object_type")

    def run(acc, kind, inner, fields):
        c = ck.ctx(AC + acc)
        whole, pay = content_of(ck, kind, inner, fields)
        c.store(c.a[0], (oi,), whole)
        outs = [o for o in c.run() if o.kind == "ret"]
        if not outs:
            raise Undecided("no returning path")
        return c, outs, whole, pay

    def some(acc, kind, inner, fields):
        c, outs, whole, pay = run(acc, kind, inner, fields)
        sp = SOME[acc]
        want = kind[0] == sp if isinstance(sp, str) else kind in sp
        lab = "%s on %s%s" % (acc, kind[0], "/" + kind[1] if kind[1] else "")
        for o in outs:
            if not (is_variant(o.ret, "Some") or is_variant(o.ret, "None")):
                raise Undecided("result is %s" % sh(o.ret))
            is_some = is_variant(o.ret, "Some")
            if is_some != want:
                ck.bad(lab, c.where(), "%s on a node holding %s yields %s" % (acc, "/".join(filter(None, kind)), sh(o.ret)))
                return
            if want:
                got = o.ret.a[1][0]
                if isinstance(sp, str):
                    x = bare(o.st.deep(c.I.content(o.st, got)))
                    if not o.same(x, whole.a[1][0]):
                        raise Undecided("yields %s" % sh(x))
                elif not payload_matches(c, o, got, pay):
                    raise Undecided("yields %s" % sh(got))
        ck.ok(lab)

    def boolean(acc, kind, inner, fields):
        c, outs, whole, pay = run(acc, kind, inner, fields)
        want = TRUE if kind == BOOL[acc] else FALSE
        lab = "%s on %s%s" % (acc, kind[0], "/" + kind[1] if kind[1] else "")
        for o in outs:
            if o.ret not in (TRUE, FALSE):
                raise Undecided("result is %s" % sh(o.ret))
            if o.ret is not want:
                ck.bad(lab, c.where(), "%s on a node holding %s is %s" % (acc, "/".join(filter(None, kind)), sh(o.ret)))
                return
        ck.ok(lab)

    ks = []
    ck.guard("content kinds", lambda: ks.extend(kinds(ck)))
    for acc in SOME:
        for k in ks:
            ck.guard("%s on %s" % (acc, k[0]), some, acc, *k)
    for acc in BOOL:
        for k in ks:
            ck.guard("%s on %s" % (acc, k[0]), boolean, acc, *k)

    def conv(ty):
        c = ck.ctx("<%s as std::convert::From<%s>>::from" % (OT, ty))
        o, i = FROM[ty]
        for r in c.run():
            if r.kind != "ret":
                continue
            x = r.st.deep(r.ret)
            if x.op != "agg" or x.a[0][0] != "adt":
                raise Undecided("conversion yields %s" % sh(x))
            if x.a[0][3] != o:
                ck.bad("conversion of " + ty, c.where(), "a %s becomes a %s" % (ty, x.a[0][3]))
                return
            y = x.a[1][0]
            if i is not None:
                if y.op != "agg" or y.a[0][0] != "adt":
                    raise Undecided("conversion yields %s" % sh(x))
                if y.a[0][3] != i:
                    ck.bad("conversion of " + ty, c.where(), "a %s becomes a %s" % (ty, y.a[0][3]))
                    return
                y = y.a[1][0]
            z = r.st.deep(c.I.content(r.st, y)) if y.op == "ref" else y
            if r.same(z, c.a[0]):
                continue
            m = [q for q in t.atoms(z, lambda q: q is c.a[0])]
            if m and z.op in ("at", "val"):
                continue
            if y.op in ("ref", "agg", "heap") and m:
                continue
            boxed(r, c, y, ty)
        ck.ok("conversion of " + ty)

    def boxed(r, c, y, ty):
        # a box: somewhere in its memory is the value itself
        for loc in t.atoms(y, lambda q: q.op in ("heap", "loc")):
            v = r.st.mem.get(loc)
            if v is not None and any(q is c.a[0] for q in t.atoms(v, lambda q: q is c.a[0])):
                return
        raise Undecided("payload of the conversion is %s" % sh(y))

    for ty in FROM:
        ck.guard("conversion of " + ty, conv, ty)
