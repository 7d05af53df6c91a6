"""The compressed-integer and encoded-string grammar, as used by several rules."""
from .lib import *

SR = "reader::WzSliceReader"
META = "property::string::WzStringMeta"
STY = "property::string::WzStringType"
MAXLEN = Int((1 << 40))


def cursor(ck, c):
    p = c.fld(c.a[0], ck.fi(SR, "pos"), 0)
    t.settype(p, "usize")
    return p


def buf(ck, c):
    return c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))


def at_cursor(ck, o, c):
    return o.fld(c.a[0], ck.fi(SR, "pos"), 0)


def cursor_is(ck, c, q):
    def f(o):
        r = at_cursor(ck, o, c)
        return want_eq(o, r, q, "the cursor at the end")

    return f


def meta_fields(ck, m):
    if m is None or m.op != "agg":
        return None
    f = m.a[1]
    return f[ck.fi(META, "offset")], f[ck.fi(META, "length")], f[ck.fi(META, "string_type")]


def want_meta(ck, off, length, ty):
    def f(o):
        if not o.is_ok():
            return "expected a %s string at %s, got %s" % (ty, sh(off), sh(o.ret))
        r = meta_fields(ck, o.okval())
        if r is None:
            return "unrecognised string location %s" % sh(o.ret)
        a, b, c = r
        if not (c.op == "agg" and c.a[0][3] == ty):
            return "string kind is %s, expected %s" % (sh(c), ty)
        if ty == "Empty":
            return want_eq(o, b, ZERO, "the length of an empty string")
        return want_eq(o, a, off, "the location of the string") or want_eq(o, b, length, "the length of the string")

    return f


def decoded(ty, n, seq, off, key):
    """the text of n encoded characters at off (key: identity of the key state or None)"""
    bv = mk("bv", 0)
    if bv.ty is None:
        bv.ty = "u64"
    return bv


def string_cases(c, s, p):
    """[(label, facts, kind, data offset, byte length, total length)] for a string whose length byte is at p"""
    b = lev(1, True, s, p)
    n = lev(4, True, s, t.add(p, ONE))
    t.settype(b, "i8")
    t.settype(n, "i32")
    L = c.len(s)
    one = t.add(p, ONE)
    five = t.add(p, Int(5))
    have1 = t.le(one, L)
    have5 = t.le(five, L)
    neg = t.mulc(b, -1)
    big = Int(1 << 29)
    R = []
    R.append(("empty", [have1, t.eq(b, ZERO)], "Empty", one, ZERO))
    R.append(("short-unicode", [have1, t.le(ONE, b), t.le(b, Int(126)), t.le(t.add(one, t.mulc(b, 2)), L)], "Unicode", one, t.mulc(b, 2)))
    R.append(("long-unicode", [have5, t.eq(b, Int(127)), t.le(ONE, n), t.le(n, big), t.le(t.add(five, t.mulc(n, 2)), L)], "Unicode", five, t.mulc(n, 2)))
    R.append(("short-ascii", [have1, t.le(Int(-127), b), t.le(b, Int(-1)), t.le(t.add(one, neg), L)], "Ascii", one, neg))
    R.append(("long-ascii", [have5, t.eq(b, Int(-128)), t.le(ONE, n), t.le(n, big), t.le(t.add(five, n), L)], "Ascii", five, n))
    return R


def with_facts(c, facts):
    for f in facts:
        c.assume(f)
    return c


def text_of(ret):
    """(decoder name, element table) of a decoded string value, Cow/ownership steps peeled"""
    v = ret
    hops = 0
    while hops < 8:
        hops += 1
        if v.op == "at":
            v = v.a[0]
        elif v.op == "call" and v.a[0] in ("String::from_utf16_lossy", "String::from_utf8_lossy", "String::from_utf8", "String::from_utf16"):
            inner = v.a[1][0]
            while inner.op == "at":
                inner = inner.a[0]
            return v.a[0].split("::")[1], inner
        elif v.op == "call" and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            break
    return None, v


def keys_of(ck, o, key, kind):
    """names of pkg2 directories use the pkg2 keys, every other text the ordinary ones"""
    own, other = ("pkg2_keys", "keys") if kind == "Pkg2Dir" else ("keys", "pkg2_keys")
    at = lambda f: o.ctx.fld(o.ctx.a[0], ck.fi(SR, f))
    has = lambda v: v is key or any(True for _ in t.atoms(key, lambda y: y is v))
    if has(at(own)):
        return None
    if has(at(other)):
        return "a %s text is decrypted with the reader's %s" % (kind, other)
    raise Undecided("key state %s" % sh(key))


def want_text(ck, kind, off, length, seq, enc=True, states=True):
    """decoded text: right decoder over the right range with the right mask"""

    def f(o):
        if not o.is_ok():
            return "expected the decoded %s string at %s, got %s" % (kind, sh(off), sh(o.ret))
        v = o.okval()
        if kind == "Empty":
            return want_eq(o, o.ctx.I.seqlen(v), ZERO, "the length of the empty string")
        name, tab = text_of(v)
        want = "from_utf16" if kind in ("Unicode", "Pkg2Dir") else "from_utf8"
        if name is None or not name.startswith(want):
            return "%s string is decoded by %s: %s" % (kind, name, sh(v))
        dec = events(o, "decrypt")
        I = o.ctx.I
        if enc:
            if len(dec) != 1:
                return "%d decryptions of the string's bytes" % len(dec)
            src = dec[0][2][1]
            m = states and keys_of(ck, o, dec[0][2][0], kind)
            if m:
                return m
            m = I.seqlen(src) is not length and want_eq(o, I.seqlen(src), length, "the number of bytes decrypted")
            if m:
                return m
            j = mk("sym", "j")
            t.settype(j, "u64")
            st = o.st.fork()
            st.assume(t.lt(j, length))
            m = want_eq(on(o, st), I.elem(st, src, j), I.elem(st, seq, t.add(off, j)), "byte j of the text")
            if m:
                return m
            x = mk("xf", "dec", dec[0][2][0], src)
        else:
            x = I.subseq(o.st, seq, off, length)
        # element k of the character table
        k = mk("sym", "k")
        t.settype(k, "u32")
        st = o.st.fork()
        st.assume(t.le(ZERO, k))
        st.assume(t.lt(k, t.div(length, Int(2)) if kind != "Ascii" else length))
        if kind == "Ascii":
            n = length
            e = t.bitop("bxor", [I.elem(st, x, k), t.wrap(t.add(k, Int(0xAA)), "u8")])
        else:
            c, d = t.aslin(length)
            n = t.div(length, Int(2))
            from absint.models import le_read
            e = le_read(I, st, x, t.mulc(k, 2), 2, False)
            t.settype(e, "u16")
            if kind == "Unicode":
                e = t.bitop("bxor", [e, t.wrap(t.add(k, Int(0xAAAA)), "u16")])
        got = I.seqlen(tab)
        m = want_eq(o, got, n, "the number of characters")
        if m:
            return m
        return want_eq(on(o, st), I.elem(st, tab, k), e, "character k")

    return f


# ---------------------------------------------------------------- readers as grammar symbols
SYMBOLS = {"read_wz_int", "read_wz_int64", "read_wz_long", "read_wz_string", "read_wz_string_at_offset", "read_wz_string_block", "read_wz_string_block_meta", "read_wz_string_meta", "read_wz_string_meta_at", "read_wz_string_pkg2_dir", "read_wz_string_pkg2_dir_meta", "read_wz_string_pkg2_u64_dir_meta", "read_ascii_string", "read_unicode_string"}
PRIMS = {"u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False), "i8": (1, True), "i16": (2, True), "i32": (4, True), "i64": (8, True), "float": (4, None), "double": (8, None)}
RTYPES = {"read_wz_int": "i32", "read_wz_int64": "i64", "read_wz_long": "i64"}
FARPOS = Int(1 << 61)


def reader_models(ck, cfg="default", fail=True, record=False):
    """Every reading method of the slice reader as one grammar symbol: reading symbol N at
    position p either fails or gives the value rd:N(file, p) and leaves the cursor behind the
    symbol, at end:N(file, p) (p + width for fixed-width symbols). That the methods are those
    symbols is what C01 and C02 decide."""
    P, B = ck.fi(SR, "pos", cfg=cfg), ck.fi(SR, "buf", cfg=cfg)
    R = {}

    def model(short):
        def m(c):
            I, st = c.I, c.st
            root, pth = I.target(c.args[0])
            bufp = I.load(st, root, pth + (("f", B),))
            if bufp.op == "at":
                bufp = bufp.a[0]
            seq = I.content(st, bufp)
            if seq.op == "at":
                seq = seq.a[0]
            cell = pth + (("f", P), ("f", 0))
            pos = I.load(st, root, cell)
            t.settype(pos, "usize")
            name = short
            at = short.endswith("_at") or short.endswith("_at_offset")
            extra = tuple(I.content(st, a) for a in c.args[1:])
            if at:
                pos = c.args[1]
                extra = tuple(I.content(st, a) for a in c.args[2:])
                name = short.rsplit("_at", 1)[0]
            ty = name[5:] if name.startswith("read_") else None
            end = None
            if ty in PRIMS:
                n, s = PRIMS[ty]
                if s is None:
                    v = mk("call", "rd:" + name, (seq, pos))
                else:
                    v = lev(n, s, seq, pos)
                    t.settype(v, ty)
                if not at:
                    end = t.add(pos, Int(n))
            else:
                v = mk("call", "rd:" + name, (seq, pos) + extra)
                if name in RTYPES:
                    t.settype(v, RTYPES[name])
                if not at:
                    end = mk("call", "end:" + name, (seq, pos) + extra)
                    t.settype(end, "usize")
            if record:
                I.event(st, "read:" + name, (pos,) + extra, c.span)
            res = []
            if fail:
                f = st.fork()
                e = mk("call", "read-error:" + name, (seq, pos) + extra)
                if end is not None:
                    h = mk("call", "errpos:" + name, (seq, pos) + extra)
                    t.settype(h, "usize")
                    I.store(f, root, cell, h)
                res.append(("ret", f, t.err(e)))
            if end is not None:
                if end.op != "lin":
                    st.assume(t.le(end, FARPOS), True)
                    st.assume(t.le(t.add(pos, ONE), end), True)
                I.store(st, root, cell, end)
            res.append(("ret", st, t.ok(v)))
            return res

        return m

    for b in ck.prog(cfg).bodies:
        if "{closure" in b.path:
            continue
        if b.path.startswith("reader::WzSliceReader::") or b.path.startswith("<reader::WzSliceReader<'_> as reader::Reader>::") or b.path.startswith("<reader::WzSliceReader<'a> as reader::Reader>::"):
            short = b.path.rsplit("::", 1)[1]
            base = short[:-3] if short.endswith("_at") else short
            if short in SYMBOLS or base[5:] in PRIMS:
                R[b.path] = model(short)
    return R


def rd(name, seq, pos, *extra):
    """the value symbol `name` has at pos"""
    ty = name[5:] if name.startswith("read_") else None
    if ty in PRIMS and PRIMS[ty][1] is not None:
        n, s = PRIMS[ty]
        return lev(n, s, seq, pos)
    return mk("call", "rd:" + name, (seq, pos) + extra)


def end(name, seq, pos, *extra):
    ty = name[5:] if name.startswith("read_") else None
    if ty in PRIMS:
        return t.add(pos, Int(PRIMS[ty][0]))
    return mk("call", "end:" + name, (seq, pos) + extra)
