"""Paths of nodes: the path functions are interpreted on chains of nodes (every depth and kind of
node up to a bound, names left unconstrained) and the text they return is written out as a word
over the names and literal characters; it must be the word of the documented path. Two different
words differ for some names, so a difference is a counterexample. The node's name type is
interpreted too: the text given is the text shown, compared and stored."""
from .lib import *

FLOOR = 90
N = "node::WzNode"
OT = "object::WzObjectType"
SP = "property::WzSubProperty"
WV = "property::WzValue"
NN = "node_name::WzNodeName"
# functions of std whose result differs from their argument for some text
CHANGES = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen", "to_lowercase", "to_uppercase",
           "to_ascii_lowercase", "to_ascii_uppercase", "escape_default", "escape_debug", "repeat")
KINDS = ("File", "MsFile", "Image", "MsImage", "Directory", "Property", "Value")


class Word:
    """flattens a string term into names and characters"""

    def __init__(self, I, st, names):
        self.I, self.st, self.names = I, st, names

    def lit(self, bs):
        return tuple(bs if isinstance(bs, bytes) else bs.encode())

    def items(self, x, depth=0):
        """elements of a list term"""
        x = self.load(x)
        if x.op == "agg" and x.a[0][0] == "array":
            return list(x.a[1])
        if x.op == "empty":
            return []
        if x.op == "push":
            return self.items(x.a[0]) + [x.a[1]]
        n = self.st.known(self.I.seqlen(x))
        if n is not None and n <= 64:
            return [self.I.elem(self.st, x, Int(i)) for i in range(n)]
        raise Undecided("list %s" % sh(x))

    def load(self, x):
        x = self.st.simp(x)
        while x.op in ("at", "ref", "cref", "deref", "val"):
            if x in self.names or self.name(x) is not None:
                break
            if x.op in ("at", "deref", "val"):
                x = x.a[0]
                continue
            y = self.I.content(self.st, x)
            if y is x or y.op == "at" and y.a[0] is x:
                break
            x = y
        return x

    def name(self, x):
        while x.op in ("at", "fld", "deref", "val"):
            if x in self.names:
                break
            x = x.a[0]
        return self.names.get(x)

    def __call__(self, x, d=0):
        if d > 60:
            raise Undecided("text too deep")
        x = self.load(x)
        n = self.name(x)
        if n is not None:
            return (n,)
        if x.op == "empty":
            return ()
        if x.op == "bytes":
            return self.lit(x.a[0])
        if x.op == "int":
            if not 0 <= x.a[0] < 128:
                raise Undecided("character %s" % sh(x))
            return (x.a[0],)
        if x.op in ("cat", "push"):
            return self(x.a[0], d + 1) + self(x.a[1], d + 1)
        if x.op == "agg" and x.a[0][0] == "array":
            return sum((self(e, d + 1) for e in x.a[1]), ())
        if x.op == "agg" and len(x.a[1]) == 1 and NN in str(x.a[0]):
            return self(x.a[1][0], d + 1)
        if x.op == "call":
            f, a = x.a[0], x.a[1]
            if f.startswith("str::") and f[5:] in CHANGES and a:
                w = self(a[0], d + 1)
                if all(isinstance(p, int) for p in w):
                    raise Undecided("text %s" % sh(x))
                rest = tuple(self(e, d + 1) for e in a[1:])
                if f == "str::replace" and len(rest) == 2 and rest[0] == rest[1]:
                    return w
                return ("%s(%s)" % (f[5:], text(w)),)
            if f in ("to_string", "format", "new_display", "to_owned"):
                return self(a[-1], d + 1)
            if f == "fmtargs" and len(a) == 2:
                return self.template(self.items(a[0]), self.items(a[1]), d)
            if f == "join" and len(a) == 2:
                sep = self(a[1], d + 1)
                res = ()
                for k, e in enumerate(self.items(a[0])):
                    res += (sep if k else ()) + self(e, d + 1)
                return res
        raise Undecided("text %s" % sh(x))

    def template(self, tm, args, d):
        bs = []
        for b in tm:
            if b.op != "int":
                raise Undecided("format template")
            bs.append(b.a[0])
        res, k, i = (), 0, 0
        while i < len(bs):
            b = bs[i]
            i += 1
            if b == 0:
                if i != len(bs):
                    raise Undecided("format template %s" % bs)
                break
            if b < 128:
                res += tuple(bs[i:i + b])
                i += b
            elif b == 192:
                if k >= len(args):
                    raise Undecided("format template %s" % bs)
                res += self(args[k], d + 1)
                k += 1
            else:
                raise Undecided("format template %s" % bs)
        return res


def text(w):
    r = ""
    for p in w:
        r += chr(p) if isinstance(p, int) else "<%s>" % p
    return '"%s"' % r


class Chain:
    """arg0 is a node with the given kinds above it: kinds[0] its own, kinds[1] its parent's, ..."""

    def __init__(self, ck, fn, kinds, cfg="default", texts=None):
        self.ck = ck
        self.c = c = ck.ctx(fn, cfg=cfg)
        OB, PA, NM = (ck.fi(N, f, cfg) if cfg != "default" else ck.fi(N, f) for f in ("object_type", "parent", "name"))
        self.names = {}
        self.words = []
        ptrs = [mk("sym", "node%d" % i, N) for i in range(len(kinds) - 1)]
        self.ptrs = ptrs
        for i, kd in enumerate(kinds):
            root, path = c.I.target(c.a[0]) if i == 0 else (mk("deref", ptrs[i - 1]), (("f", 0),))
            put = lambda f, v: c.I.store(c.st, root, path + (("f", f),), v)
            if texts is None:
                nm = mk("sym", "name%d" % i, NN)
                put(NM, nm)
                self.names[nm] = "name of %s" % ("the node" if i == 0 else "ancestor %d" % i)
                self.words.append((self.names[nm],))
            else:
                s = texts[i]
                h = mk("heap", 1000 + i)
                c.st.mem[h] = mk("bytes", s)
                put(NM, t.adt(NN, 0, "WzNodeName", (mk("ref", h, ()),)))
                self.words.append(tuple(s.encode()))
            put(OB, self.kind(kd, i))
            if i + 1 < len(kinds):
                par = mk("weak", ptrs[i])
                a = mk("alive", par)
                a.ty = "bool"
                c.assume(a)
            else:
                par = mk("weaknone")
            put(PA, par)

    def kind(self, kd, i):
        ck = self.ck
        if kd == "Property":
            return ck.mkenum(OT, kd, (ck.mkenum(SP, "Property", ()),))
        if kd == "Value":
            return ck.mkenum(OT, kd, (ck.mkenum(WV, "Null", ()),))
        h = mk("heap", 500 + i)
        self.c.st.mem[h] = mk("sym", "payload%d" % i, kd)
        return ck.mkenum(OT, kd, (mk("ref", h, ()),))


def joined(words):
    """root first"""
    res = ()
    for k, w in enumerate(words):
        res += ((47,) if k else ()) + w
    return res


def documented(fn, kinds, words):
    if fn == "get_full_path":
        return joined(reversed(words))
    if len(kinds) == 1:
        return ()
    if fn == "get_path_from_root":
        return joined(list(reversed(words))[1:])
    for i in range(1, len(kinds)):
        if kinds[i] == "Image":
            return joined(list(reversed(words[:i])))
    return ()


def path_case(ck, fn, kinds, texts=None, cfg="default"):
    ch = Chain(ck, N + "::" + fn, kinds, cfg, texts)
    want = documented(fn, kinds, ch.words)

    def f(o):
        got = Word(ch.c.I, o.st, ch.names)(o.ret)
        if got != want:
            return "the path of a %s below %s is %s, not %s" % (kinds[0], " below ".join(kinds[1:]) or "nothing", text(got), text(want))
    lab = "%s %s%s%s" % (fn, "<".join(kinds), " named %s" % ",".join(texts) if texts else "", "" if cfg == "default" else " [%s]" % cfg)
    ck.case(lab, ch.c, f)


def plans(thorough):
    yield ("Property",)
    deep = 5 if thorough else 4
    for d in range(1, deep + 1):
        yield ("Property",) * (d + 1)
        for i in range(d + 1):
            for k in KINDS:
                if k != "Property" and (d <= 2 or k in ("Image", "Directory", "File") or thorough):
                    yield ("Property",) * i + (k,) + ("Property",) * (d - i)
    for ks in (("Image", "Directory", "File"), ("Property", "Image", "Directory", "File"), ("Property", "Image", "Image", "File"),
               ("Value", "Property", "Property", "Image", "File"), ("Value", "Property", "Image", "Property", "Image"), ("Property", "MsImage", "MsFile"),
               ("Image", "Image"), ("Image", "Image", "Directory"), ("Image", "Property", "Image"), ("Value", "Image", "Directory", "Directory", "File", "File")):
        yield ks


TEXTS = [("a", "b.img", "", "Base"), ("", "x", "y", "z"), ("0", "a/b", "..", "."), ("_inlink", "dup", "dup", "dup"), ("a", "", "", "r"), ("\u00e9", "B", "b", "Data.wz")]


def names(ck):
    def same_text(x, arg):
        """the term is the text of the argument"""
        while x.op in ("at", "val", "deref") and x is not arg:
            x = x.a[0]
        return x is arg

    src = mk("sym", "text", "str")

    def made(fn, args):
        c = ck.ctx(fn, args=args)

        def f(o):
            r = follow(ck, o, NN + "::as_str", [(o.ret,)])
            for p in r.run():
                if p.kind != "ret":
                    continue
                x = p.st.simp(r.I.content(p.st, p.ret))
                if not same_text(x, src):
                    w = Word(r.I, p.st, {src: "text"})(x)
                    if w != ("text",):
                        return "the name made of a text is %s, not the text" % text(w)
        ck.case("%s keeps the text" % fn, c, f)
    ck.guard("name from &str", made, "<%s as std::convert::From<&str>>::from" % NN, [src])
    ck.guard("name from String", made, "<%s as std::convert::From<std::string::String>>::from" % NN, [src])
    ck.guard("name new", made, NN + "::new", [src])

    def shown():
        c = ck.ctx("<%s as std::fmt::Display>::fmt" % NN)
        nm = mk("sym", "name", NN)
        c.store(c.a[0], (), nm)

        def f(o):
            parts = ()
            for e in o.st.trace:
                if e.r[0] == "call" and "Formatter" in e.r[1]:
                    w = e.r[1].rsplit("::", 1)[-1]
                    if w not in ("write_fmt", "write_str", "write_char", "pad"):
                        raise Undecided("formatter call %s" % e.r[1])
                    parts += Word(c.I, o.st, {nm: "name"})(e.r[2][1])
                elif e.r[0] == "call" and e.r[1] in ("<str as std::fmt::Display>::fmt", "<std::sync::Arc<str> as std::fmt::Display>::fmt"):
                    parts += Word(c.I, o.st, {nm: "name"})(e.r[2][0])
                elif e.r[0] == "call":
                    raise Undecided("call of %s" % e.r[1])
                elif e.r[0] == "loop":
                    raise Undecided("loop")
            if parts != ("name",):
                return "the name is shown as %s" % text(parts)
        ck.case("a name is shown as its text", c, f)
    ck.guard("name shown", shown)

    def equal():
        c = ck.ctx("<%s as std::cmp::PartialEq>::eq" % NN)
        a, b = c.fld(c.a[0], 0), c.fld(c.a[1], 0)

        def f(o):
            x, y = a, b
            r = o.ret
            if r.op == "seqeq" and {strip(r.a[0]), strip(r.a[1])} == {strip(x), strip(y)}:
                return None
            ats = t.atoms(r, lambda z: z.op == "call")
            if r.op == "seqeq" and any(z.op == "call" and z.a[0] in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim") for z in ats):
                return "names are compared as %s" % sh(r)
            raise Undecided("comparison %s" % sh(r))
        ck.case("names are equal when their texts are", c, f)
    ck.guard("name equality", equal)


def strip(x):
    while x.op in ("at", "val", "deref"):
        x = x.a[0]
    return x


def check(ck):
    for fn in ("get_full_path", "get_path_from_root", "get_path_from_image"):
        if not ck.has(N + "::" + fn):
            ck.unsure(fn, "", "no function " + fn)
            continue
        for ks in plans(ck.thorough):
            ck.guard("%s %s" % (fn, "<".join(ks)), path_case, ck, fn, ks)
        for ts in TEXTS:
            for ks in (("Property", "Property", "Image", "File"), ("Value", "Image", "Image", "Directory"), ("Property",) * 4):
                ck.guard("%s %s %s" % (fn, "<".join(ks), ts), path_case, ck, fn, ks, ts)
    names(ck)
