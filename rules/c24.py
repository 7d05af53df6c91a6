"""JSON of values and nodes: the value conversion is interpreted for every value kind and
its result compared with the JSON value of the same meaning; the node conversion for leaves
of every content kind and for a node with any number of children. A feasible panicking path
of either is a violation."""
from .lib import *

FLOOR = 20
WV = "property::WzValue"
OT = "object::WzObjectType"
SP = "property::WzSubProperty"
N = "node::WzNode"
CONV = "property::<impl std::convert::From<property::WzValue> for serde_json::Value>::from"
JS = "node::WzNode::to_simple_json"
INTS = {"Short": "i16", "Int": "i32", "Long": "i64"}


def meaning(o, x):
    """('null',) ('num', v) ('fnum', v) ('str', v) ('obj', term) of a JSON value term, or None"""
    x = bare(x)
    if x.op == "agg" and x.a[0][0] == "adt":
        v = x.a[0][3]
        if v == "Null":
            return ("null",)
        if v in ("Number", "String", "Object", "Bool") and x.a[1]:
            return inner(o, v, x.a[1][0])
    if x.op == "call":
        n, args = x.a[0], x.a[1]
        if n.startswith("serde_json::Value::"):
            return inner(o, n.rsplit("::", 1)[1], args[0])
        if n == "From::from" and args[0].op == "unk":
            ty = args[1].a[0] if args[1].op == "unk" else ""
            return conv(o, ty, args[2])
    return None


def conv(o, ty, v):
    if ty in t.INTTY:
        return ("num", v)
    if ty in ("f32", "f64"):
        return ("float", v)  # non-finite becomes null
    if "String" in ty or "str" in ty:
        return ("str", bare(v))
    return None


def inner(o, kind, v):
    if kind == "Number":
        if v.op == "call" and v.a[0] == "From::from":
            return conv(o, v.a[1][1].a[0], v.a[1][2])
        if v.op == "vfld" and v.a[0].op == "call" and v.a[0].a[0].endswith("Number::from_f64"):
            return ("fnum", v.a[0].a[1][0])
        return None
    if kind == "String":
        return ("str", bare(v))
    if kind == "Object":
        return ("obj", v)
    return None


def unf2f(x):
    return x.a[0] if x.op == "f2f" else x


def panics(ck, lab, c, outs):
    for o in outs:
        if o.kind == "panic" and real_panic(o):
            ck.bad(lab, c.where(), "a value makes the conversion panic: %s\n    path: %s" % (paninfo(o), o.pathdesc()))
            return True
    return False


def real_panic(o):
    i = str(o.info)
    return not any(k in i for k in ("misaligned", "null pointer", "NullPointer", "Misaligned"))


def paninfo(o):
    return str(o.info)[:200]


def get_string(c):
    s = mk("call", "text", (c.I.content(c.st, c.args[0]),))
    return [("ret", c.st.fork(), t.ok(s)), ("ret", c.st, t.err(mk("call", "text-error", (s,))))]


def check(ck):
    def value(kind):
        a = next((v for v in ck.prog().adts[WV]["variants"] if v["name"] == kind), None)
        if a is None:
            raise Missing("value kind " + kind)
        pay = mk("sym", "payload", kind)
        if kind in INTS:
            t.settype(pay, INTS[kind])
        c = ck.ctx(CONV, args=[ck.mkenum(WV, kind, (pay,) if a["fields"] else ())], opaque={"property::string::WzString::get_string": get_string})
        outs = c.run()
        lab = "value " + kind
        if panics(ck, lab, c, outs):
            return
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            raise Undecided("no returning path")
        saw_num = False
        for o in rets:
            x = o.st.deep(o.ret)
            m = meaning(o, x)
            if m is None:
                raise Undecided("result %s is of no known form" % sh(x))
            e = None
            if kind in ("Null", "RawData", "Video", "Lua"):
                if m[0] != "null":
                    e = "becomes %s" % (m[0],)
            elif kind in INTS:
                if m[0] != "num" or not o.same(m[1], pay):
                    if m[0] == "num":
                        e = want_eq(o, m[1], pay, "number")
                    else:
                        e = "becomes %s" % sh(x)
            elif kind in ("Float", "Double"):
                if m[0] == "null":
                    # only where the number is refused
                    if not any(f.op == "discr" and "from_f64" in t.show(f) for f in o.st.bounds):
                        if "is_finite" in o.pathdesc() or "is_nan" in o.pathdesc():
                            raise Undecided("null under another condition")
                        e = "becomes null although it may be finite"
                elif m[0] in ("float", "fnum"):
                    saw_num = True
                    if not o.same(unf2f(m[1]), pay):
                        raise Undecided("number is %s" % sh(m[1]))
                else:
                    e = "becomes %s" % sh(x)
            elif kind in ("UOL", "String"):
                if m[0] != "str":
                    e = "becomes %s" % sh(x)
                else:
                    w = mk("call", "text", (pay,))
                    if bare(m[1]).op == "empty" or (m[1].op == "seqof" and False):
                        if not any(f.op == "discr" for f in o.st.bounds) and len(rets) == 1:
                            e = "is always empty"
                    elif not any(y.op == "call" and y.a[0] == "text" for y in t.atoms(m[1], lambda y: y.op == "call")):
                        if any(y.op == "call" and y.a[0] == "text-error" for y in t.atoms(m[1], lambda y: y.op == "call")):
                            continue
                        raise Undecided("text is %s" % sh(m[1]))
            elif kind == "ParsedString":
                if m[0] != "str" or not o.same(m[1], pay):
                    if m[0] == "str" and any(y is pay for y in t.atoms(m[1], lambda y: y is pay)):
                        continue
                    e = "becomes %s" % sh(x)
            elif kind == "Vector":
                if m[0] != "obj":
                    e = "becomes %s" % sh(x)
                else:
                    e = vector(ck, o, pay)
            if e:
                ck.bad(lab, c.where(), "a %s value %s\n    path: %s" % (kind, e, o.pathdesc()))
                return
        if kind in ("Float", "Double") and not saw_num:
            ck.bad(lab, c.where(), "a %s value never becomes a number" % kind)
            return
        if kind in ("UOL", "String") and not any("text" in t.show(o.ret) for o in rets):
            ck.bad(lab, c.where(), "a %s value never becomes its text" % kind)
            return
        ck.ok(lab)

    def vector(ck, o, pay):
        got = {}
        for e in o.st.trace:
            if e.r[0] == "call" and e.r[1].split("::")[-1] == "insert":
                k = bare(e.r[2][1])
                k = k.a[0] if k.op == "bytes" else None
                if isinstance(k, bytes):
                    k = k.decode()
                got[str(k)] = meaning(o, o.st.deep(e.r[2][2]))
        if not got or None in got.values():
            raise Undecided("object is built as %s" % sh(o.ret))
        for i, n in enumerate("xy"):
            m = got.get(n)
            want = o.ctx.I.proj(o.st, pay, ("f", i))
            if m is None or m[0] != "num" or not o.same(m[1], want):
                if m is None and not any(n in k for k in got):
                    return "has no %s (has %s)" % (n, sorted(got))
                if m is None:
                    raise Undecided("names are %s" % sorted(got))
                return "has %s = %s" % (n, sh(m[1]) if len(m) > 1 else m)

    for kind in ("Null", "RawData", "Video", "Lua", "Short", "Int", "Long", "Float", "Double", "Vector", "UOL", "String", "ParsedString"):
        ck.guard("value " + kind, value, kind)

    # ------------------------------------------------------------ nodes
    oi, ci = None, None

    def child_json(c):
        r = mk("call", "child-json", (c.I.content(c.st, c.args[0]),))
        return [("ret", c.st.fork(), t.ok(r)), ("ret", c.st, t.err(mk("call", "json-error", (r,))))]

    ident = lambda c: c.ret(c.I.content(c.st, c.args[0]))
    OP = {"<property::string::WzString as std::clone::Clone>::clone": ident, "<property::WzValue as std::clone::Clone>::clone": ident, JS: child_json, CONV: lambda c: c.ret(mk("call", "json-of", (bare(c.args[0]),)))}

    def node(kind, leaf):
        o_, i_ = kind
        pay = mk("sym", "payload", "%s/%s" % kind)
        if i_ is None:
            whole = ck.mkenum(OT, o_, (pay,))
        else:
            adt = SP if o_ == "Property" else WV
            a = next((v for v in ck.prog().adts[adt]["variants"] if v["name"] == i_), None)
            if a is None:
                raise Missing("kind " + i_)
            whole = ck.mkenum(OT, o_, (ck.mkenum(adt, i_, (pay,) if a["fields"] else ()),))
        c = ck.ctx(JS, opaque=OP)
        c.store(c.a[0], (ck.fi(N, "object_type"),), whole)
        ch = c.fld(c.a[0], ck.fi(N, "children"))
        c.assume(t.eq(c.len(entries(ch)), ZERO), leaf)
        lab = "%s %s" % ("leaf" if leaf else "tree", "/".join(filter(None, kind)))
        outs = c.run()
        if panics(ck, lab, c, outs):
            return
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            raise Undecided("no returning path")
        seen_ok = False
        for o in rets:
            x = o.st.deep(o.ret)
            s = t.show(x)
            e = None
            tv = any(y.op == "call" and y.a[0].endswith("to_value") for y in t.atoms(x, lambda y: y.op == "call"))
            if leaf:
                if kind == ("Property", "PNG") or kind == ("Property", "Sound"):
                    if not tv:
                        e = "becomes %s, not its own description" % s[:200]
                    elif not any(y is pay for y in t.atoms(x, lambda y: y is pay)):
                        raise Undecided("result %s" % s[:200])
                elif o_ == "Value":
                    w = mk("call", "json-of", (whole.a[1][0],))
                    if not (o.is_ok() and o.same(bare(o.st.deep(o.okval())), w)):
                        if o.is_ok() and meaning(o, o.okval()) == ("null",):
                            e = "becomes null"
                        else:
                            raise Undecided("result %s" % s[:200])
                elif not (o.is_ok() and meaning(o, o.okval()) == ("null",)):
                    e = "becomes %s" % s[:200]
            elif o.is_ok():
                m = meaning(o, o.okval())
                if m is None or m[0] != "obj":
                    e = "becomes %s, not an object of its children" % s[:200]
                else:
                    e = tree(o, ch, m[1])
                seen_ok = seen_ok or not e
            elif o.is_err():
                if not ("json-error" in s or tv):
                    e = "fails with %s although nothing failed" % s[:200]
            if e:
                ck.bad(lab, c.where(), "a node holding %s %s\n    path: %s" % ("/".join(filter(None, kind)), e, o.pathdesc()))
                return
        if not leaf and not seen_ok:
            ck.bad(lab, c.where(), "no path succeeds")
            return
        ck.ok(lab)

    def tree(o, ch, obj):
        es = entries(ch)
        full = visits_all(o, [es])
        if not full:
            if not any(y is es for lp in loops(o) for b in lp.backs for ev in b.trace for y in t.atoms(ev_term(ev), lambda y: y is es)):
                if not loops(o):
                    return "does not go over its children"
            raise Undecided("the loop over the children is not recognised")
        for lp, phi, sq in full:
            good = True
            for b in lp.backs:
                el = b.simp(mk("elem", es, phi))
                ins = [e for e in b.trace if e.r[0] == "call" and e.r[1].split("::")[-1] == "insert"]
                if not ins:
                    return "drops a child (an iteration over the children adds nothing)"
                ok = False
                for e in ins:
                    v = bare(b.deep(e.r[2][2]))
                    if any(y.op == "call" and y.a[0] == "child-json" for y in t.atoms(v, lambda y: y.op == "call")):
                        ok = True
                if not ok:
                    raise Undecided("children are added as %s" % [sh(e.r[2][2]) for e in ins])
        return None

    def ev_term(ev):
        return mk("x", *[a for a in (ev.r[2] if len(ev.r) > 2 and isinstance(ev.r[2], tuple) else ()) if isinstance(a, t.T)])

    ks = [("File", None), ("Directory", None), ("Image", None), ("Property", "Property"), ("Property", "Convex"), ("Property", "PNG"), ("Property", "Sound"), ("Value", "Int"), ("Value", "Null"), ("Value", "String"), ("Value", "UOL"), ("Value", "Double"), ("Value", "Vector")]
    for k in ks:
        ck.guard("leaf %s" % (k,), node, k, True)
        ck.guard("tree %s" % (k,), node, k, False)
