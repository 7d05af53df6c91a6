"""Payload records: a record is parsed up to its payload, then the payload's public accessors are
interpreted on exactly the value and memory the parser left. Whatever the fields in between are
called or mean, the bytes that come out must be the range the format declares - the declared size,
directly behind the record's own header (in front of the block's end for sounds) - of the file the
record was read from."""
from .records import *
from . import c04

FLOOR = 8
RAW, VID, SND, PNG = "property::raw_data::WzRawData", "property::video::WzVideo", "property::sound::WzSound", "property::png::WzPng"
STR, LUA, IMG = "property::string::WzString", "property::lua::WzLua", "wz_image::WzImage"
WB = "reader::WzBaseReader::<T>::"


def check(ck):
    ck.guard("raw data", plain, ck, "RawData", "RawData", RAW)
    ck.guard("video", plain, ck, "Canvas#Video", "Video", VID)
    for acc in ("get_buffer", "write_to", "get_wav_header"):
        ck.guard("sound " + acc, sound, ck, acc)
    ck.guard("whole images", images, ck)
    for kind in ("Ascii", "Unicode", "Empty"):
        ck.guard("string " + kind, string, ck, kind)
    r = Canvas(ck)
    for h in ZLIB:
        ck.guard("canvas plain", canvas, r, h)
    ck.guard("canvas encrypted", canvas, r, None)


def same_file(r):
    """the cursor reads the file the payload keeps (decided where readers are made)"""
    ck, c = r.ck, r.c
    arc = c.seq(r.org)
    g = follow(ck, Start(c), WB + "get_ref_slice", [arc])
    res = [o.ret for o in g.run() if o.kind == "ret"]
    if len(res) != 1:
        raise Undecided("the bytes of a file")
    c.store(r.reader, (ck.fi(SR, "buf"),), res[0])
    b = c.fld(r.reader, ck.fi(SR, "buf"))
    r.buf = bytes_at(c.I, c.st, b)
    r.file = r.buf


def bytes_at(I, st, p):
    """the byte sequence a reference to bytes leads to"""
    for _ in range(6):
        q = p.a[0] if p.op == "at" else I.content(st, p) if p.op in ("ref", "cref", "sym") else p
        if q is p:
            break
        p = q
    return p


class Start:
    def __init__(self, c):
        self.st = c.st


def payload(r, o, ty):
    """the payload value of type ty in the node that is returned"""
    x = r.node(o)["object_type"]
    for _ in range(8):
        if x.op == "agg" and x.a[0][0] == "adt" and x.a[0][1] == ty:
            return x
        if x.op in ("ref", "cref"):
            root, pth = o.ctx.I.target(x)
            x = o.ctx.I.load(o.st, root, pth)
        elif x.op == "agg" and x.a[0][0] == "adt" and len(x.a[1]) >= 1:
            x = x.a[1][0]
        else:
            break
    raise Undecided("a payload %s" % sh(x))


def is_range(o, got, file, off, n, what):
    """the bytes are file[off..off+n]"""
    I = o.ctx.I
    s = bytes_at(I, o.st, got)
    want = I.subseq(o.st, file, off, n)
    if o.same(s, want):
        return None
    m = want_eq(o, I.seqlen(s), n, "the number of bytes of %s" % what)
    if m:
        return m
    j = mk("sym", "j")
    t.settype(j, "u64")
    st = o.st.fork()
    st.assume(t.le(ZERO, j))
    st.assume(t.lt(j, n))
    a, b = I.elem(st, s, j), I.elem(st, file, t.add(off, j))
    for x in (a, b):
        if x.op == "elem":
            t.settype(x, "u8")
    if same_in(st, a, b):
        return None
    m = want_eq(O(o, st), a, b, "byte j of %s" % what)
    if m:
        return m
    raise Undecided("%s is %s" % (what, sh(s)))


class O:
    """a path (the turn st of the loop lp) seen by the comparisons"""

    def __init__(self, o, st, lp=None):
        self.ctx, self.st = o.ctx, st
        self.within = list(getattr(o, "within", ())) + ([lp] if lp else [])

    def same(self, a, b):
        return same_in(self.st, a, b)


def real(o):
    """a panic a program can meet (not the compiler's own pointer checks)"""
    if o.kind != "panic" or any(e.r[0] == "loop" for e in o.st.trace):
        return False
    why = o.info[0]
    return not (why[0] == "assert" and why[1] == "other") and str(why[2][0]).startswith("src/")


def accepted(ck, label, r, kind, ty, fn):
    """fn(o, payload) -> message for each way a record of this kind is accepted"""
    outs = [o for o in r.rets if r.kind(o) == kind and o.is_ok()]
    if not outs:
        raise Undecided("no record of kind %s is accepted" % kind)
    und = None
    for o in outs:
        try:
            m = fn(o, payload(r, o, ty))
        except Undecided as e:
            und = und or e
            continue
        if m:
            ck.bad(label, r.c.where(), "%s: %s\n    path: %s" % (label, m, o.pathdesc()))
            return
    if und:
        raise und
    ck.ok(label, "%d ways to read the record" % len(outs))


def plain(ck, kind, label, W):
    r = Rec(ck, EXT, EXT, LIST, pre=same_file)
    K = r.end("read_wz_string_block", r.pos, r.origin)

    def f(o, x):
        if kind == "RawData":
            q, lst = c04.raw_start(r, o, K)
            if isinstance(q, str):
                return q
        else:
            q = t.add(K, Int(3))
        n = r.rd("read_wz_int", q)
        t.settype(n, "i32")
        c = follow(ck, o, W + "::get_buffer", [(x,)])
        if not c.st.assume(t.le(ZERO, n)):
            return None
        for o2 in c.run():
            if o2.kind == "ret":
                m = is_range(o2, o2.ret, r.file, r.end("read_wz_int", q), n, "the payload")
                if m:
                    return m
            elif real(o2):
                return "reading an accepted payload panics: %s" % (o2.info,)
        return None

    accepted(ck, label, r, kind, W, f)


RIFF = [0x52, 0x49, 0x46, 0x46, None, None, None, None, 0x57, 0x41, 0x56, 0x45, 0x66, 0x6D, 0x74, 0x20, 0x10, 0, 0, 0] + [None] * 16 + [0x64, 0x61, 0x74, 0x61] + [None] * 4


def wav_header(o, s, base, file, hdr, n):
    """the 44 bytes at s[base..] are the wave header of a sound of n bytes"""
    I, st = o.ctx.I, o.st
    total = t.wrap(t.add(n, Int(36)), "u32")
    for i, b in enumerate(RIFF):
        got = I.elem(st, s, t.add(base, Int(i)))
        if b is not None:
            want = Int(b)
        elif 20 <= i < 36:
            want = I.elem(st, file, t.add(hdr, Int(0x34 + i - 20)))
        else:
            x, k = (total, i - 4) if i < 8 else (n, i - 40)
            want = t.wrap(t.div(x, Int(256 ** k)), "u8")
        if not o.same(got, want):
            m = want_eq(o, got, want, "byte %d of the wave header" % i)
            if m:
                return m
    return None


def sound(ck, acc):
    r = Rec(ck, EXT, EXT, LIST, pre=same_file)
    K = r.end("read_wz_string_block", r.pos, r.origin)
    q = t.add(K, ONE)
    raw = r.rd("read_wz_int", q)
    n = t.wrap(raw, "u32")
    q2 = r.end("read_wz_int", q)
    hdr = r.end("read_wz_int", q2)
    end = r.c.a[r.A["block"]]
    t.settype(end, "usize")
    off = t.sub(end, n)

    def f(o, x):
        c = follow(ck, o, SND + "::" + acc, [(x,)])
        for a in (t.le(ZERO, raw), t.le(raw, end)):
            if not c.st.assume(a):
                return None
        is_len(c, o, off, hdr, acc)
        for o2 in c.run():
            if o2.kind != "ret":
                if real(o2) and acc != "get_wav_header":
                    return "reading an accepted sound panics: %s" % (o2.info,)
                continue
            m = whole(o2)
            if m:
                return m
        return None

    def is_len(c, o, off, hdr, acc):
        # only sounds of a complete header have a wave header
        if acc == "get_wav_header":
            c.st.assume(t.le(t.add(hdr, Int(0x44)), off))

    def whole(o):
        I = o.ctx.I
        if acc == "get_wav_header":
            return header_only(o)
        if acc == "write_to":
            if not o.is_ok():
                return None
            parts = [bytes_at(I, o.st, e.r[2][1]) for e in o.st.trace if e.r[0] == "call" and "write" in e.r[1]]
            if any(e.r[0] == "loop" for e in o.st.trace):
                raise Undecided("the sound is written in a loop")
        else:
            parts = [bytes_at(I, o.st, o.ret)]
        ln = ZERO
        for p in parts:
            ln = t.add(ln, I.seqlen(p))
        if o.same(ln, n):
            if len(parts) != 1:
                raise Undecided("%d pieces" % len(parts))
            return is_range(o, parts[0], r.file, off, n, "the sound")
        if o.same(ln, t.add(n, Int(44))):
            if len(parts) == 2 and o.same(I.seqlen(parts[0]), Int(44)):
                return wav_header(o, parts[0], ZERO, r.file, hdr, n) or is_range(o, parts[1], r.file, off, n, "the sound")
            if len(parts) == 1:
                return wav_header(o, parts[0], ZERO, r.file, hdr, n) or is_range(o, I.subseq(o.st, parts[0], Int(44), n), r.file, off, n, "the sound")
            raise Undecided("%d pieces" % len(parts))
        return want_eq(o, ln, n, "the number of bytes of the sound")

    def header_only(o):
        s = bytes_at(o.ctx.I, o.st, o.ret)
        return want_eq(o, o.ctx.I.seqlen(s), Int(44), "the length of the wave header") or wav_header(o, s, ZERO, r.file, hdr, n)

    accepted(ck, "Sound " + acc, r, "Sound_DX8", SND, f)


ZLIB = (0x9C78, 0xDA78, 0x0178, 0x5E78)
INFLATE = "flate2::Decompress::decompress_vec"


class Canvas(Rec):
    def __init__(self, ck):
        Rec.__init__(self, ck, EXT, EXT, LIST, pre=same_file)

    def place(self, o):
        """(format, format add-on, declared size, position of the data)"""
        K = self.end("read_wz_string_block", self.pos, self.origin)
        m, q, lst = c04.flagged(self, o, [c04.u8(self, t.add(K, ONE))], t.add(K, Int(2)))
        if m:
            raise Undecided(m)
        q = self.end("read_wz_int", self.end("read_wz_int", q))
        f1 = self.rd("read_wz_int", q)
        q = self.end("read_wz_int", q)
        f2 = self.rd("read_i8", q)
        q = self.end("read_wz_int", self.end("read_wz_int", t.add(q, ONE)))
        size = self.rd("read_i32", t.add(q, Int(2)))
        t.settype(size, "i32")
        return f1, f2, size, t.add(q, Int(7))


def canvas(r, head):
    ck = r.ck
    label = "Canvas " + ("plain %04x" % head if head else "encrypted")
    formats = (1,) if not ck.thorough else (1, 2, 257, 513, 517, 769, 1026, 2050, 2562, 4098)

    def f(o, x):
        for fmt in formats:
            f1, f2, size, start = r.place(o)
            h = r.rd("read_u16", start)
            n = t.sub(size, ONE)
            c = follow(ck, o, PNG + "::extract_png", [(x,)])
            ok = c.st.assume(t.le(ONE, size)) and c.st.assume(t.eq(f1, Int(fmt))) and c.st.assume(t.eq(f2, ZERO))
            for z in ZLIB:
                ok = ok and c.st.assume(t.eq(h, Int(z)), z == head)
            if not ok:
                continue
            n_out = 0
            und = None
            for o2 in c.run():
                if o2.kind != "ret":
                    continue
                try:
                    m, used = data(o2, n, start)
                except Undecided as e:
                    und = und or e
                    continue
                n_out += used
                if m:
                    return m
            if und:
                raise und
            if not n_out:
                raise Undecided("the data is never inflated")
        return None

    def data(o, n, start):
        evs = [e for e in o.st.trace if e.r[0] == "call" and "ecompress" in e.r[1]]
        I = o.ctx.I
        used = 0
        for i, e in enumerate(evs):
            if e.r[1] != INFLATE:
                raise Undecided("the data is inflated by %s" % e.r[1])
            z = e.r[2][0]
            z = z.a[0] if z.op == "at" else z
            s = bytes_at(I, o.st, e.r[2][1])
            if not (z.op == "call" and z.a[0] == "flate2::Decompress::new"):
                raise Undecided("inflater %s" % sh(z))
            zlib = o.st.decide(z.a[1][0])
            if zlib is None:
                raise Undecided("inflater %s" % sh(z))
            used += 1
            if zlib:
                if head is None:
                    return "data without a header is inflated with one", used
                m = is_range(o, s, r.file, start, n, "the canvas data")
            else:
                m = blocks(o, s, start, n)
            if m:
                return m, used
        if head and evs and o.st.decide(evs[0].r[2][0].a[0].a[1][0]) is False:
            return "data with a header is not inflated directly", used
        if o.is_ok() and not evs:
            return "an image is made without its data", used
        return None, used

    def blocks(o, s, start, n):
        """s is the concatenation, from its third byte on, of the decrypted blocks in start..start+n"""
        I = o.ctx.I
        lps = [lp for lp in loops(o) if any(same_in(o.st, v, start) for v in lp.init.values())]
        if len(lps) != 1:
            raise Undecided("loops over the blocks: %d" % len(lps))
        lp = lps[0]
        acc = [p for p, v in lp.init.items() if any(x.op in ("cat", "push") and x.a[0] is p for x in lp.steps[p])]
        if len(acc) != 1:
            raise Undecided("the decrypted data")
        acc = acc[0]
        if not o.same(I.seqlen(lp.init[acc]), ZERO):
            raise Undecided("the decrypted data starts as %s" % sh(lp.init[acc]))
        m = is_range(o, s, acc, Int(2), t.sub(I.seqlen(acc), Int(2)), "the decrypted data")
        if m:
            return m
        cur = [p for p, v in lp.init.items() if same_in(o.st, v, start)]
        end = t.add(start, n)
        for p in cur:
            msg = None
            for st, nxt, s2 in zip(lp.backs, lp.steps[p], lp.steps[acc]):
                size = lev(4, True, r.file, p)
                want = t.add(t.add(p, Int(4)), t.wrap(size, "u64"))
                if not same_in(st, nxt, want):
                    msg = want_eq(O(o, st, lp), nxt, want, "the position of the next block")
                    if msg is None:
                        raise Undecided("the next block is at %s" % sh(nxt))
                    return msg
                msg = shown(O(o, st, lp), t.lt(p, end), "a block behind the data is read")
                if msg:
                    return msg
                if s2.op != "cat" or s2.a[0] is not acc:
                    raise Undecided("a block is added as %s" % sh(s2))
                dec = [e for e in st.trace if e.r[0] == "call" and "decrypt_slice" in e.r[1]]
                if len(dec) != 1:
                    return "%d decryptions of a block" % len(dec)
                src = bytes_at(I, st, dec[0].r[2][1])
                msg = is_range(O(o, st, lp), src, r.file, t.add(p, Int(4)), t.wrap(size, "u64"), "a block")
                if msg:
                    return msg
                hv = t.atoms(s2.a[1], lambda y: y.op == "hav" and y.a[0] is dec[0].r[3])
                if not (s2.a[1].op == "hav" and s2.a[1] in hv) and not (hv and I.seqlen(s2.a[1]) is I.seqlen(hv[0])):
                    raise Undecided("what is added is %s" % sh(s2.a[1]))
            msg = shown(o, t.le(end, p), "not all blocks are read")
            if msg:
                return msg
        return None

    accepted(ck, label, r, "Canvas", PNG, f)


def string(ck, kind):
    """a text read later is the text at the place the record remembers"""
    for rec in ("String", "UOL"):
        if rec == "String":
            def pre(r):
                same_file(r)
                c04.code_is(8)(r)

            r = Rec(ck, NODE, EXT, pre=pre)
            outs = [o for o in r.rets if o.is_ok()]
            meta = r.rd("read_wz_string_block_meta", r.pos, r.origin)
        else:
            r = Rec(ck, EXT, EXT, LIST, pre=same_file)
            outs = [o for o in r.rets if r.kind(o) == "UOL" and o.is_ok()]
            q = t.add(r.end("read_wz_string_block", r.pos, r.origin), ONE)
            meta = r.rd("read_wz_string_block_meta", q, r.origin)
        if not outs:
            raise Undecided("no %s record is accepted" % rec)
        n = 0
        for o in outs:
            I = o.ctx.I
            x = payload(r, o, STR)
            off, ln, ty = [I.proj(o.st, meta, ("f", ck.fi(META, f))) for f in ("offset", "length", "string_type")]
            t.settype(off, "usize")
            t.settype(ln, "u32")
            c = follow(ck, o, STR + "::get_string", [(x,)], opaque=decrypt_models())
            ok = c.st.assume(t.eq(mk("discr", ty), Int(ck.vi(STY, kind))))
            L = I.seqlen(r.file)
            for a in (t.le(ZERO, off), t.le(t.add(off, ln), L), t.le(L, Int(1 << 47)), t.le(ONE, ln)):
                ok = ok and c.st.assume(a)
            if kind == "Unicode":
                h = mk("sym", "half")
                t.settype(h, "u32")
                # an even number of bytes
                ok = ok and c.st.assume(t.eq(ln, t.mulc(h, 2)))
            if not ok:
                continue
            w = want_text(ck, kind, off, ln, r.file, states=False)
            for o2 in c.run():
                if o2.kind != "ret":
                    continue
                if o2.is_err() and t.atoms(o2.ret, lambda y: is_variant(y, "DecryptError")):
                    continue
                n += 1
                m = w(o2)
                if m:
                    ck.bad("text " + rec + " " + kind, c.where(), "%s record, %s" % (rec, m) + "\n    path: " + o2.pathdesc())
                    return
        if not n:
            raise Undecided("the text is never read")
        ck.ok("text " + rec + " " + kind)


def images(ck):
    """where an image's records are read: the cursor goes over the file that payloads keep; images
    that are one text keep that text's range"""
    op = reader_models(ck)

    def at_list(c):
        I, st = c.I, c.st
        A = ARGS[LIST]
        root, pth = I.target(c.args[A["reader"]])
        b = bytes_at(I, st, I.load(st, root, pth + (("f", ck.fi(SR, "buf")),)))
        I.event(st, "list", (I.content(st, c.args[A["org"]]), b, c.args[A["origin"]]), c.span)
        return [("ret", st.fork(), t.ok(mk("call", "listed", ()))), ("ret", st, t.err(mk("call", "list-err", ())))]

    op[LIST] = at_list
    c = ck.ctx(IMG + "::resolve_children", opaque=op)
    I = c.I
    arc = c.fld(c.a[0], ck.fi(IMG, "reader"))
    arcv = I.content(c.st, arc)
    g = [o for o in follow(ck, Start(c), WB + "get_ref_slice", [arc]).run() if o.kind == "ret"]
    file = bytes_at(I, c.st, g[0].ret)
    base, size = c.fld(c.a[0], ck.fi(IMG, "offset")), c.fld(c.a[0], ck.fi(IMG, "block_size"))
    name = c.fld(c.a[0], ck.fi(IMG, "name"))
    for x in (base, size):
        t.settype(x, "usize")
    c.assume(t.le(t.add(base, size), I.seqlen(file)))
    c.assume(t.le(base, Int(1 << 46)))
    c.assume(t.le(I.seqlen(file), Int(1 << 47)))
    b0 = lev(1, False, file, base)
    seen = {"list": 0, "text": 0, "packed": 0, "script": 0}
    for o in c.run():
        if o.kind != "ret" or not o.is_ok():
            continue
        evs = [e for e in o.st.trace if e.r[0] == "call" and e.r[1] == "list"]
        m = None
        if evs:
            seen["list"] += 1
            for e in evs:
                org, b, origin = e.r[2]
                if not same_in(o.st, org, arcv) and not same_in(o.st, org, mk("at", arcv)):
                    raise Undecided("payloads keep %s" % sh(org))
                if b is not file and not o.same(b, file):
                    m = "records are read from %s but their payloads from %s" % (sh(b), sh(file))
                elif not o.same(origin, base):
                    m = "the base offset of shared strings is %s, expected the image's start" % sh(origin)
        else:
            lst = I.proj(o.st, o.okval(), ("f", 0))
            if not o.same(I.seqlen(lst), ONE):
                raise Undecided("an image becomes %s" % o.show())
            node = I.proj(o.st, I.elem(o.st, lst, ZERO), ("f", 1))
            root, pth = I.target(node)
            x = I.load(o.st, root, pth + (("f", 0), ("f", ck.fi(N, "object_type"))))
            while x.op in ("ref", "cref") or (x.op == "agg" and x.a[0][0] == "adt" and x.a[0][1] not in (RAW, LUA) and len(x.a[1]) == 1):
                x = I.load(o.st, *I.target(x)) if x.op != "agg" else x.a[1][0]
            if not (x.op == "agg" and x.a[0][1] in (RAW, LUA)):
                raise Undecided("an image becomes %s" % sh(x))
            m = text_image(ck, o, x, file, base, size, b0, seen)
        if m:
            ck.bad("whole images", c.where(), m + "\n    path: " + o.pathdesc())
            return
    for k, n in seen.items():
        if n:
            ck.ok("images: " + k)
        else:
            ck.unsure("images: " + k, "no such path")


def text_image(ck, o, x, file, base, size, b0, seen):
    if x.a[0][1] == LUA:
        seen["script"] += 1
        q = t.add(base, ONE)
        n = mk("call", "rd:read_wz_int", (file, q))
        t.settype(n, "i32")
        off = mk("call", "end:read_wz_int", (file, q))
        t.settype(off, "usize")
        c = follow(ck, o, LUA + "::extract_lua", [(x,)], opaque=decrypt_models())
        if not c.st.assume(t.le(ONE, n)):
            return None
        k = 0
        for o2 in c.run():
            if o2.kind != "ret":
                if real(o2) and o2.info[0][1] == "slice":
                    return "reading the script panics: %s" % (o2.info,)
                continue
            if not o2.is_ok():
                continue
            k += 1
            v = o2.okval()
            fn, tab = text_of(v.a[0] if v.op == "vfld" else v)
            if fn is None or not fn.startswith("from_utf8"):
                raise Undecided("the script is %s" % sh(o2.okval()))
            while tab.op == "at":
                tab = tab.a[0]
            if not (tab.op == "xf" and tab.a[0] == "dec"):
                raise Undecided("the script is %s" % sh(tab))
            m = is_range(o2, tab.a[2], file, off, n, "the script")
            if m:
                return m
        if not k:
            raise Undecided("no script is ever read")
        return None
    pack = o.st.decide(t.eq(b0, Int(0x23)))
    named = [f for f, (lo, hi) in o.st.bounds.items() if f.op == "call" and "ends_with" in f.a[0] and lo == hi == 1]
    txt = any(y.a[0] == ".txt" for f in named for y in t.atoms(f, lambda y: y.op in ("bytes", "str")))
    if txt:
        seen["text"] += 1
        off, n = base, size
    elif pack:
        seen["packed"] += 1
        off, n = t.add(base, Int(9)), t.sub(size, Int(9))
    else:
        raise Undecided("an image that is one text")
    c = follow(ck, o, RAW + "::get_buffer", [(x,)])
    for o2 in c.run():
        if o2.kind != "ret":
            if real(o2):
                return "reading the text panics: %s" % (o2.info,)
            continue
        m = is_range(o2, o2.ret, file, off, n, "the text")
        if m:
            return m
    return None
