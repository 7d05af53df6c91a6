"""Pack files: the entry table, the headers and the entry keys of both generations are interpreted
with the two cipher readers as grammar symbols (value and end of a read as functions of where it
starts); loops over entries are taken to a fixpoint. Stored fields, data positions, checks and
keys are compared with the format's, for any file name, salt and contents."""
from .lib import *
from absint import witness
from . import stream

FLOOR = 9
S, H = "ms::snow2_reader::Snow2Reader", "ms::chacha20_reader::ChaCha20Reader"
F, HD, IMG, META = "ms::file::MsFile", "ms::header::MsHeader", "ms::ms_image::MsImage", "ms::ms_image::MsEntryMeta"
D = "ms::snow2_decryptor::Snow2Decryptor"
N = "node::WzNode"
BASE = bytes.fromhex("7B2F3548439502B9AE91A6E1D8D624B433101D3DC1BBC6F4A5FEB3696B56E475")
KINDS = {"read_i32": "i32", "read_u32": "u32", "read_utf16_string": None, "read_bytes": None, "write_bytes_to": None}


def sym(name, *a):
    return mk("call", "ms:" + name, tuple(a))


def after(name, *a):
    return mk("call", "ms-end:" + name, tuple(a))


def value(name, *a):
    v = sym(name, *a)
    if KINDS.get(name):
        t.settype(v, KINDS[name])
    return v


witness.FREE |= {"ms:", "ms-end:", "sum"}


def within(b, got, want, what, phis=False):
    """None when equal on this path, a message when a witness tells them apart"""
    if same_in(b, got, want):
        return None
    k, m = witness.compare(b, b.deep(got), b.deep(want), phis=phis)
    if k == "differ":
        return "%s is %s, expected %s\n    %s" % (what, sh(got), sh(want), m)
    raise Undecided("%s: %s (%s, expected %s)" % (what, m, sh(got), sh(want)))


def reader_op(ck, R):
    """the reader's operations as symbols over its position"""
    off = ck.fi(R, "offset")
    op = {}

    def read(name):
        def m(c):
            root, pth = c.I.target(c.args[0])
            p = c.I.load(c.st, root, pth + (("f", off),))
            extra = (c.args[2],) if name == "write_bytes_to" else tuple(c.args[1:])
            v = value(name, p, *extra)
            f = c.st.fork()
            c.I.store(c.st, root, pth + (("f", off),), after(name, p, *extra))
            if name == "write_bytes_to":
                r2, p2 = c.I.target(c.args[1])
                c.I.store(c.st, r2, p2, v)
                v = UNIT
            return [("ret", c.st, t.ok(v)), ("ret", f, t.err(mk("call", "ms-error", (p,))))]

        return m

    for n in KINDS:
        op["%s::<'a>::%s" % (R, n)] = read(n)

    def new(c):
        c.I.event(c.st, "cipher", tuple(bare(c.I.content(c.st, a)) for a in c.args), c.span)
        return c.ret(mk("upd", mk("call", "new-reader", (mk("sym", R),)), ((("f", off), ZERO),)))

    op[R + "::<'a>::new"] = new
    return op


def array_is(o, seq, want, what):
    """the first elements of the sequence are the given terms"""
    st = o.st
    for i, w in enumerate(want):
        g = st.simp(o.ctx.I.elem(st, seq, Int(i)))
        m = within(st, g, w, "%s, byte %d" % (what, i))
        if m:
            return m
    return None


# ---------------------------------------------------------------- the entry table
def table(ck, ver):
    R = S if ver == 1 else H
    op = {}
    for r in (S, H):
        op.update(reader_op(ck, r))
    c = ck.ctx(F + "::parse", opaque=op)
    me = c.a[0]
    hd = ck.fi(F, "header")
    h = lambda f: c.fld(me, hd, ck.fi(HD, f))
    c.assume(t.eq(h("ms_file_version"), Int(ver)), 1)
    salted = h("name_with_salt")
    n = c.I.seqlen(salted)
    size = c.fld(me, ck.fi(F, "block_size"))
    seen = {"entry": 0, "node": 0}
    order = ["entry_name", "check_sum", "flags", "start_pos", "size", "size_aligned", "unk1", "unk2", "entry_key"] + (["unk3", "unk4"] if ver == 2 else [])

    def chain(b, cur):
        """what an entry stores that starts at cur, and where it ends"""
        ln = value("read_i32", cur)
        p = after("read_i32", cur)
        neg = b.decide(t.lt(ln, ZERO))
        if neg is None:
            neg = b.decide(t.le(Int(1 << 63), t.wrap(ln, "u64")))
        if neg is None:
            return None, None
        chars = Int((1 << 64) - 1) if neg else t.mulc(t.wrap(ln, "u64"), 2)
        res = {"entry_name": value("read_utf16_string", p, b.simp(chars))}
        p = after("read_utf16_string", p, b.simp(chars))
        for f in order[1:]:
            if f == "entry_key":
                res[f] = value("write_bytes_to", p, Int(16))
                p = after("write_bytes_to", p, Int(16))
            else:
                res[f] = value("read_i32", p)
                p = after("read_i32", p)
        return res, p

    def entries_loop(o):
        for lp in loops(o):
            for v in lp.init:
                if lp.steps[v] and all(s.op == "push" and s.a[0] is v and s.a[1].op == "agg" and s.a[1].a[0][1] == IMG for s in lp.steps[v]):
                    return lp, v
        return None, None

    def f(o):
        evs = [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1] == "cipher"]
        if o.is_err():
            return None
        if not o.is_ok():
            raise Undecided("result %s" % sh(o.ret))
        count = h("entry_count")
        lp, vec = entries_loop(o)
        if lp is None:
            if o.st.decide(t.le(count, ZERO)) is True:
                return None
            raise Undecided("the loop that reads the entries is not recognised")
        # the key the table is decrypted with
        if len(evs) != 1:
            return "%d readers are made" % len(evs)
        args = evs[0][2]
        if not (args[0].op == "sub" and o.same(args[0].a[1], ZERO) and o.same(args[0].a[2], size)):
            raise Undecided("the data given to the reader is %s" % sh(args[0]))
        want = []
        for i in range(16 if ver == 1 else 32):
            e = c.I.elem(o.st, salted, t.sub(t.sub(n, ONE), t.rem(Int(i), n)))
            t.settype(e, "u8")
            k = t.wrap(t.add(Int(i), t.mulc(e, i % 3 + 2)), "u8")
            want.append(k if ver == 1 else t.bitop("bxor", [k, Int(BASE[i])]))
        m = array_is(o, args[1], want, "the key of the entry table")
        if m:
            return m
        if ver == 2:
            m = array_is(o, args[2], [ZERO] * 12, "the nonce of the entry table")
            if m:
                return m
        idx = [p for p in lp.init if lp.init[p] is ZERO and all(same_in(b, s, t.add(p, ONE)) for s, b in zip(lp.steps[p], lp.backs))]
        if not idx or not any(o.same(p, count) for p in idx):
            if idx and any(o.st.decide(t.lt(p, count)) is True for p in idx):
                return "fewer entries are read than the header's count"
            if len(idx) == 1:
                for d in (t.sub(idx[0], count), t.sub(count, idx[0])):
                    lo, hi = o.st.bounds.get(d, (None, None))
                    if lo is not None and lo == hi != 0:
                        return "%d entries more than the header's count are read" % (lo if d is t.sub(idx[0], count) else -lo)
            raise Undecided("the number of entries read is not recognised")
        cur = None
        for x in lp.init:
            if x in idx or x is vec:
                continue
            if lp.init[x] is h("estart"):
                cur = x
        if cur is None:
            cand = [x for x in lp.init if x not in idx and x is not vec and any(y.op == "call" and str(y.a[0]).startswith("ms-end:") for y in lp.steps[x])]
            if cand:
                return "the entries are read from %s on, not from where the header says" % sh(lp.init[cand[0]])
            raise Undecided("the position variable is not recognised")
        for k, b in enumerate(lp.backs):
            want, end = chain(b, cur)
            if want is None:
                raise Undecided("the sign of the name's length is not settled")
            im = lp.steps[vec][k].a[1]
            get = lambda f: im.a[1][ck.fi(IMG, f)]
            meta = get("meta")
            mget = lambda f: c.I.proj(b, meta, ("f", ck.fi(META, f)))
            for fld in order:
                g = b.deep(bare(c.I.content(b, mget(fld))))
                if not (g is want[fld] or same_in(b, g, want[fld])):
                    if b.deep(g).op == "call" or g.op == "int":
                        return "the entry's %s is %s, expected what is stored next: %s" % (fld, sh(g), sh(want[fld]))
                    raise Undecided("the entry's %s is %s" % (fld, sh(g)))
            if ver == 1:
                for fld in ("unk3", "unk4"):
                    if not same_in(b, mget(fld), ZERO):
                        return "the entry's %s is %s, the first generation does not store it" % (fld, sh(mget(fld)))
            if not same_in(b, mget("version"), Int(ver)):
                return "the entry's generation is %s" % sh(mget("version"))
            if not same_in(b, bare(c.I.content(b, mget("key_salt"))), h("key_salt")):
                return "the entry's salt is %s" % sh(mget("key_salt"))
            m = within(b, get("block_size"), t.wrap(want["size_aligned"], "u64"), "the entry's data length") or within(b, get("offset"), t.wrap(want["start_pos"], "u64"), "the entry's first block")
            if m:
                return m
            if not same_in(b, lp.steps[cur][k], end):
                return "the next entry is read from %s, expected behind this one" % sh(lp.steps[cur][k])
        seen["entry"] += 1
        # where the data starts
        r = t.rem(cur, Int(1024))
        for lp2 in loops(o):
            if lp2 is lp:
                continue
            for x in lp2.init:
                for s, b in zip(lp2.steps[x], lp2.backs):
                    if not (s.op == "push" and s.a[0] is x):
                        continue
                    node = bare(c.I.content(b, s.a[1]))
                    ims = {y for y in t.atoms(node, lambda y: y.op in ("agg", "upd") and is_image(c, y))}
                    al = b.decide(t.eq(r, ZERO))
                    up = t.add(cur, Int(1023))
                    start = cur if al else t.add(t.sub(cur, r), Int(1024)) if al is False else t.sub(up, t.rem(up, Int(1024)))
                    ii = [p for p in lp2.init if lp2.init[p] is ZERO and all(same_in(bb, ss, t.add(p, ONE)) for ss, bb in zip(lp2.steps[p], lp2.backs))]
                    if len(ims) != 1 or not ii:
                        raise Undecided("the node made of an entry is not recognised: %s" % sh(node))
                    im = ims.pop()
                    e = c.I.elem(b, vec, ii[0])
                    pr = lambda v, *f: v if not f else pr(c.I.proj(b, v, ("f", f[0])), *f[1:])
                    fo, fm, fb = ck.fi(IMG, "offset"), ck.fi(IMG, "meta"), ck.fi(IMG, "block_size")
                    t.settype(pr(e, fo), "u64")
                    m = within(b, pr(im, fo), t.add(t.mulc(pr(e, fo), 1024), start), "the position of an entry's data", True)
                    if m:
                        return m
                    if not same_in(b, pr(im, fb), pr(e, fb)):
                        return "the length of an entry's data becomes %s" % sh(pr(im, fb))
                    for fld in order + ["version", "key_salt"]:
                        if fld == "start_pos":
                            continue
                        i = ck.fi(META, fld)
                        if not same_in(b, bare(c.I.content(b, pr(im, fm, i))), bare(c.I.content(b, pr(e, fm, i)))):
                            return "the entry's %s becomes %s" % (fld, sh(pr(im, fm, i)))
                    if not any(o.same(p, c.I.seqlen(vec)) for p in ii):
                        return "not every entry becomes a node"
                    seen["node"] += 1
        if not seen["node"]:
            raise Undecided("the loop that makes the nodes is not recognised")
        return None

    def is_image(c, y):
        while y.op == "upd":
            y = y.a[0]
        return (y.op == "agg" and y.a[0][0] == "adt" and y.a[0][1] == IMG) or (y.op == "elem" and any(z.op == "phi" for z in (y.a[0],)))

    lab = "entry table, generation %d" % ver
    ck.case(lab, c, f)
    ck.expect(lab + ": read", seen["entry"] > 0, c.where(), "no entry is ever stored")
    ck.expect(lab + ": nodes", seen["node"] > 0, c.where(), "no entry ever becomes a node")


# ---------------------------------------------------------------- headers
def parts(st, x):
    """the strings a formatted string is made of, in order"""
    x = bare(x)
    if x.op == "call" and x.a[0] == "format" and x.a[1][0].op == "call" and x.a[1][0].a[0] == "fmtargs":
        pieces, args = [bare(y) for y in x.a[1][0].a[1]]
        tmpl = [y.a[0] for y in pieces.a[1]]
        if tmpl != [192] * len(args.a[1]) + [0] or any(y.op != "call" or not str(y.a[0]).endswith("new_display") for y in args.a[1]):
            raise Undecided("the format string is not recognised: %s" % sh(x))
        return [z for y in args.a[1] for z in parts(st, y.a[1][0])]
    if x.op == "call" and str(x.a[0]).endswith("String as std::ops::Add<&str>>::add"):
        return [z for y in x.a[1] for z in parts(st, y)]
    if x.op == "cat":
        return [z for y in x.a for z in parts(st, y)]
    return [x]


def header(ck, ver):
    op = {}
    for r in (S, H):
        op.update(reader_op(ck, r))
    nm = mk("sym", "file-name")

    def total(c):
        v = mk("call", "sum", (bare(c.I.content(c.st, c.args[0])),))
        t.settype(v, "usize")
        return c.ret(v)

    op["ms::utils::get_ascii_file_name"] = lambda c: c.ret(nm)
    op["ms::utils::sum_str"] = total

    def snow(c):
        k = bare(c.I.content(c.st, c.args[0]))
        c.I.event(c.st, "cipher", (k,), c.span)
        return c.ret(mk("call", "snow", (k,)))

    def plain(c):
        root, p = c.I.target(c.args[1])
        c.I.store(c.st, root, p, mk("call", "plain", (c.I.load(c.st, root, p),)))
        return c.ret(ZERO)

    op[D + "::new"], op[D + "::decrypt_slice"] = snow, plain
    c = ck.ctx(HD + ("::from_ms_file" if ver == 1 else "::from_ms_file_v2"), opaque=op)
    M = c.fld(c.a[1], ck.fi("reader::WzBaseReader", "map"))
    le = lambda n, s, seq, off: t.settype(mk("le", n, s, seq, off), ("i" if s else "u") + str(8 * n))
    by = lambda i: t.settype(mk("elem", M, i), "u8")
    total_ = t.settype(mk("call", "sum", (nm,)), "usize")
    cnt = t.add(t.rem(total_, Int(312)), Int(30))
    x = lambda a, b: t.bitop("bxor", [a, b])
    w = lambda v, ty="u8": t.wrap(v, ty)
    if ver == 1:
        rand = by
        sl0 = t.add(cnt, Int(0))
    else:
        rand = lambda i: w(t.shr(w(by(i), "i8"), ONE))
        sl0 = t.add(cnt, ONE)
    saltlen = x(by(sl0), rand(ZERO))
    saltat = lambda i: t.add(t.add(sl0, Int(4)), t.mulc(i, 2))
    hstart = t.add(t.add(sl0, Int(4)), t.mulc(saltlen, 2))

    def saltchar(i):
        if ver == 1:
            return x(rand(i), by(saltat(i)))
        a = x(rand(i), by(saltat(i)))
        return w(t.sub(t.mulc(t.bitop("bor", [a, Int(0x4B)]), 2), t.add(a, Int(75))))

    def f(o):
        if o.is_err():
            return None
        if not o.is_ok():
            raise Undecided("result %s" % sh(o.ret))
        got = lambda n: bare(o.content(c.I.proj(o.st, o.okval(), ("f", ck.fi(HD, n)))))
        pos0 = ZERO
        if ver == 1:
            buf = mk("call", "plain", (mk("sub", M, hstart, Int(12)),))
            hash_, version, entries = le(4, True, buf, ZERO), t.settype(mk("elem", buf, Int(4)), "u8"), le(4, True, buf, Int(5))
            estart = t.add(t.add(hstart, Int(9 + 33)), t.rem(t.mulc(total_, 3), Int(212)))
        else:
            hash_ = value("read_i32", pos0)
            entries = value("read_i32", after("read_i32", pos0))
            version = x(by(cnt), rand(ZERO))
            estart = t.add(t.add(hstart, Int(8 + 64)), t.rem(t.mulc(total_, 3), Int(212)))
        ks = got("key_salt")
        i = mk("sym", "salt-index")
        t.settype(i, "usize")
        m = within(o.st, c.I.seqlen(ks), saltlen, "the length of the salt")
        if m:
            return m
        m = within(o.st, c.I.elem(o.st, ks, i), saltchar(i), "a character of the salt")
        if m:
            return m
        nws = got("name_with_salt")
        ps = parts(o.st, nws)
        if not (len(ps) == 2 and ps[0] is nm and same_in(o.st, ps[1], ks)):
            if not all(p is nm or same_in(o.st, p, ks) for p in ps):
                raise Undecided("the salted name is made of %s" % [sh(p) for p in ps])
            return "the salted name is made of %s, expected the file name and the salt" % [sh(p) for p in ps]
        for n, want in (("header_hash", hash_), ("version", version), ("entry_count", entries), ("hstart", hstart), ("estart", estart), ("ms_file_version", Int(ver))):
            m = within(o.st, got(n), want, "the header's %s" % n)
            if m:
                return m
        if not same_in(o.st, version, Int(2 if ver == 1 else 4)):
            return "a header of version %s is accepted" % sh(version)
        evs = [e.r[2] for e in o.st.trace if e.r[0] == "call" and e.r[1] == "cipher"]
        if len(evs) != 1:
            return "%d ciphers are used" % len(evs)
        n = c.I.seqlen(nws)
        key = []
        for j in range(16 if ver == 1 else 32):
            k = w(t.add(t.settype(c.I.elem(o.st, nws, t.rem(Int(j), n)), "u8"), Int(j)))
            key.append(k if ver == 1 else x(k, Int(BASE[j])))
        m = array_is(o, evs[0][0 if ver == 1 else 1], key, "the key of the header")
        if m:
            return m
        if ver == 2:
            m = array_is(o, evs[0][2], [ZERO] * 12, "the nonce of the header")
            if m:
                return m
            d = evs[0][0]
            if not (d.op == "sub" and d.a[0] is M and o.st.decide(t.le(Int(64), d.a[2])) is True):
                raise Undecided("the data given to the reader is %s" % sh(d))
            return within(o.st, d.a[1], hstart, "where the header is read from")
        # the header's own sum
        fo = [y for fact in o.st.bounds for y in t.atoms(fact, lambda y: y.op == "fold")]
        for y in fo:
            init, step, bv, acc, n = y.a
            if init is ZERO and any(z.op == "le" or z.op == "elem" for z in t.atoms(step, lambda z: True)):
                m = within(o.st, n, saltlen, "the number of characters summed up") or within(o.st, step, w(t.add(acc, le(2, False, M, saltat(bv))), "i32"), "a step of the sum over the salt")
                if m:
                    return m
                for v in (version, Int(2)):
                    want = w(t.add(t.add(le(4, True, M, cnt), v), t.add(entries, y)), "i32")
                    if same_in(o.st, hash_, want) or any(o.st.bounds.get(d) == (0, 0) for d in (t.sub(hash_, want), t.sub(want, hash_))):
                        return None
                eqs = [g for g, r in o.st.bounds.items() if r == (0, 0) and t.contains(g, lambda z: z is hash_)]
                if eqs and not any(z.op in ("ovf", "not", "and", "or") for g in eqs for z in t.atoms(g, lambda z: True)):
                    return "a header is accepted when %s is 0, which is not the equality of its hash and the sum of its parts" % sh(eqs[0])
                if not eqs:
                    return "a header is accepted whose hash is not compared for equality with the sum of its parts"
                raise Undecided("the check of the header's hash is not recognised")
        if not any(hash_ in t.atoms(fact, lambda y: y is hash_) for fact in o.st.bounds):
            return "the header's hash is not checked"
        raise Undecided("the check of the header's hash is not recognised")

    lab = "header, generation %d" % ver
    ck.case(lab, c, f)


def names(ck):
    c = ck.ctx("ms::utils::get_ascii_file_name")

    def f(o):
        p, want = c.a[0], ["str::to_ascii_lowercase", "std::ffi::OsStr::to_str", "std::path::Path::file_name"]
        got = [str(y.a[0]) for y in t.atoms(o.ret, lambda y: y.op == "call")]
        if sorted(got) == sorted(want) and o.ret.op == "call" and o.ret.a[0] == want[0]:
            return None
        raise Undecided("the name is %s" % sh(o.ret))

    ck.case("name of a pack file", c, f)
    c = ck.ctx("ms::utils::sum_str")

    def g(o):
        seq = c.seq(c.a[0])
        r = o.ret
        if r.op == "fold" and r.a[0] is ZERO and same_in(o.st, r.a[4], c.I.seqlen(seq)):
            return within(o.st, r.a[1], t.add(r.a[3], c.I.elem(o.st, seq, r.a[2])), "a step of the sum")
        raise Undecided("the sum is %s" % sh(o.ret))

    ck.case("sum of a name's bytes", c, g)


# ---------------------------------------------------------------- the images
def image(ck, ver):
    W, R = "wz_image::WzImage", "reader::WzBaseReader"
    op = {}

    def snow(c):
        k = bare(c.I.content(c.st, c.args[0]))
        c.I.event(c.st, "cipher", (k,), c.span)
        return c.ret(mk("call", "snow", (k,)))

    def plain(c):
        root, p = c.I.target(c.args[1])
        c.I.store(c.st, root, p, mk("call", "plain", (c.I.load(c.st, root, p),)))
        return c.ret(ZERO)

    op[D + "::new"], op[D + "::decrypt_slice"] = snow, plain

    def key(c):
        args = tuple(bare(c.I.content(c.st, a)) for a in c.args)
        c.I.event(c.st, "cipher", args, c.span)
        return c.ret(t.ok(mk("call", "chacha", args)))

    def param(c):
        c.I.event(c.st, "param", (c.args[1], c.args[2]), c.span)
        return c.ret(UNIT)

    op["c2_chacha::stream_cipher::NewStreamCipher::new_var"] = key
    op["c2_chacha::guts::ChaCha::set_stream_param"] = param
    op["c2_chacha::stream_cipher::SyncStreamCipher::apply_keystream"] = lambda c: (plain(c), c.ret(UNIT))[1]
    op[R + "::<memmap2::Mmap>::from_buff"] = lambda c: c.ret(mk("call", "buffer", (bare(c.I.content(c.st, c.args[0])),)))
    c = ck.ctx(IMG + "::to_wz_image", opaque=op)
    me = c.a[0]
    im = lambda *f: c.fld(me, *f)
    fm = ck.fi(IMG, "meta")
    meta = lambda n: im(fm, ck.fi(META, n))
    c.assume(t.eq(meta("version"), Int(ver)), 1)
    off, size = im(ck.fi(IMG, "offset")), im(ck.fi(IMG, "block_size"))
    fmap = ck.fi(R, "map")
    chars = lambda s: mk("seqof", "chars", bare(s))
    name = c.seq(meta("entry_name")) if meta("entry_name").op == "at" else meta("entry_name")
    salt = meta("key_salt")
    w = lambda v, ty="u8": t.wrap(v, ty)
    x = lambda a, b: t.bitop("bxor", [a, b])
    bv = mk("bv", 0)
    bv.ty = "u64"
    acc = mk("acc", 0, "u32")
    acc.ty = "u32"
    H0 = t.settype(mk("fold", Int(0x811C9DC5), w(t.mulc(x(acc, t.settype(mk("elem", chars(salt), bv), "char")), 0x1000193), "u32"), bv, acc, mk("len", chars(salt))), "u32")
    text = mk("call", "to_string", (mk("unk", "u32"), H0))
    dl = mk("len", chars(text))
    digit = lambda i: t.sub(w(t.settype(mk("elem", chars(text), t.rem(Int(i), dl)), "char")), Int(48))
    nm = bare(name) if ver == 1 else chars(name)
    ek = meta("entry_key")
    c.assume(t.eq(c.I.seqlen(ek), Int(16)), 1)
    for i in range(16):
        t.settype(mk("elem", ek, Int(i)), "u8")

    def keybyte(I, st, i):
        ch = I.elem(st, nm, t.rem(Int(i), I.seqlen(nm)))
        if ver == 1:
            t.settype(ch, "u8")
        e = t.settype(I.elem(st, ek, t.rem(t.add(digit(i + 2), Int(i)), Int(16))), "u8")
        d1, d2 = t.rem(digit(i), Int(2)), t.rem(t.add(digit(i + 1), Int(i)), Int(5))
        k = w(t.add(Int(i), t.mul(w(ch), w(t.add(t.add(d1, e), d2)))))
        return k if ver == 1 else x(k, Int(BASE[i]))

    def f(o):
        if o.kind != "ret":
            return None
        evs = [e.r[2] for e in o.st.trace if e.r[0] == "call" and e.r[1] == "cipher"]
        if not evs:
            return "no cipher is used"
        for args in evs:
            m = array_is(o, args[0], [keybyte(c.I, o.st, i) for i in range(16 if ver == 1 else 32)], "the key of an entry")
            if m:
                return m
        img = o.ret
        g = lambda n: bare(o.content(c.I.proj(o.st, img, ("f", ck.fi(W, n)))))
        wanted = w(meta("size"), "u64")
        m = within(o.st, g("offset"), ZERO, "the image's offset") or within(o.st, g("block_size"), wanted, "the image's length") or within(o.st, g("is_parsed"), ZERO, "the image's parse mark")
        if m:
            return m
        buf = g("reader")
        if buf.op != "call" or buf.a[0] != "buffer":
            raise Undecided("the image's buffer is %s" % sh(buf))
        src = bare(o.content(im(ck.fi(IMG, "reader"))))
        whole = [y for y in t.atoms(buf, lambda y: y.op == "sub") if t.contains(y.a[0], lambda z: z.op == "deref" or z.op == "fld") and same_in(o.st, y.a[1], off) and same_in(o.st, y.a[2], size)]
        if not whole:
            raise Undecided("the image's buffer is %s" % sh(buf))
        data = whole[0]
        if not (data.a[0].op == "fld" and data.a[0].a[1] == fmap):
            raise Undecided("the data of the entry is %s" % sh(data))
        got = bare(buf.a[1][0])
        if not (got.op == "sub" and same_in(o.st, got.a[1], ZERO) and same_in(o.st, got.a[2], wanted)):
            if got.op == "sub" and same_in(o.st, got.a[1], ZERO):
                return "the image holds %s bytes of the entry, expected its size" % sh(got.a[2])
            if got.op == "call" and got.a[0] == "plain":
                return "the image holds all of the entry's blocks, expected its size"
            raise Undecided("the image's buffer is %s" % sh(got))
        body = got.a[0]
        if ver == 1:
            if len(evs) != 2:
                return "the first block is deciphered %d times in all, expected twice" % len(evs)
            if not (body.op == "call" and body.a[0] == "plain"):
                raise Undecided("the image's data is %s" % sh(body))
            body = body.a[1][0]
        if not (body.op == "ssupd" and body.a[0] is data and same_in(o.st, body.a[1], ZERO)):
            raise Undecided("the image's data is %s" % sh(body))
        k = body.a[2]
        if not any(same_in(o.st, k, mk("min", *z)) for z in ((size, Int(1024)), (Int(1024), size))):
            m = within(o.st, k, mk("min", size, Int(1024)), "the number of bytes of the first block")
            if m:
                return m
        blk = body.a[3]
        if not (blk.op == "call" and blk.a[0] == "plain" and blk.a[1][0].op == "sub" and blk.a[1][0].a[0] is data.a[0] and same_in(o.st, blk.a[1][0].a[1], off)):
            raise Undecided("the first block is %s" % sh(blk))
        if ver == 2:
            return stream(o, evs)
        return None

    def stream(o, evs):
        if len(evs) != 1:
            return "the first block is deciphered %d times" % len(evs)
        h2 = t.div(H0, Int(2))
        h3 = x(h2, Int(0x6C))
        data = [t.settype(w(t.shr(h, Int(8 * i))), "u8") for h in (H0, h2, h3) for i in range(4)]
        out = []
        a, b, cc, d = 0, 0, 90, 0
        for i in range(12):
            out.append(x(data[i], Int((d + 11 * (i // 11) + (cc ^ (i >> 2)) + (a ^ b)) & 255)))
            d, a, b, cc = d - 1, a + 8, b + 17, cc + 43
        m = array_is(o, evs[0][1], [ZERO] * 4 + out[:8], "the nonce of an entry")
        if m:
            return m
        ps = [e.r[2] for e in o.st.trace if e.r[0] == "call" and e.r[1] == "param"]
        if len(ps) != 1 or not o.same(ps[0][0], ZERO):
            return "the block counter of an entry is not set once"
        want = out[8]
        for k in (1, 2, 3):
            want = t.add(want, t.mulc(out[8 + k], 256 ** k))
        return within(o.st, ps[0][1], want, "the block counter of an entry")

    ck.case("entry image, generation %d" % ver, c, f)


def opened(ck):
    """which of the two generations is tried, and what becomes of the file's length"""
    op = {}
    hv = {1: mk("sym", "header-1"), 2: mk("sym", "header-2")}
    fv = ck.fi(HD, "ms_file_version")

    def model(v):
        def m(c):
            f = c.st.fork()
            h = mk("upd", hv[v], ((("f", fv), Int(v)),))
            c.I.event(c.st, "header", (Int(v),), c.span)
            c.I.event(f, "header", (Int(v),), c.span)
            return [("ret", c.st, t.ok(h)), ("ret", f, t.err(mk("sym", "header-error")))]
        return m

    op[HD + "::from_ms_file"], op[HD + "::from_ms_file_v2"] = model(1), model(2)
    c = ck.ctx(F + "::from_file", opaque=op)
    seen = set()

    def f(o):
        tried = [e.r[2][0].a[0] for e in o.st.trace if e.r[0] == "call" and e.r[1] == "header"]
        if o.is_err():
            if tried and set(tried) != {1, 2}:
                return "a file is rejected after only generation %s was tried" % tried
            return None
        if not o.is_ok():
            raise Undecided("result %s" % sh(o.ret))
        g = lambda n: c.I.proj(o.st, o.okval(), ("f", ck.fi(F, n)))
        h = g("header")
        while h.op == "upd":
            h = h.a[0]
        k = [v for v in hv if hv[v] is h]
        if not k:
            raise Undecided("the header is %s" % sh(h))
        seen.add(k[0])
        r = bare(o.content(g("reader")))
        m = c.I.proj(o.st, r, ("f", ck.fi("reader::WzBaseReader", "map")))
        return within(o.st, g("block_size"), c.I.seqlen(m), "the length of the file")

    ck.case("opening a pack file", c, f)
    ck.expect("opening a pack file: both generations", seen == {1, 2}, c.where(), "only generations %s can be opened" % sorted(seen))


def check(ck):
    ck.guard("opening a pack file", opened, ck)
    for ver in (1, 2):
        ck.guard("entry table, generation %d" % ver, table, ck, ver)
        ck.guard("header, generation %d" % ver, header, ck, ver)
        ck.guard("entry image, generation %d" % ver, image, ck, ver)
    ck.guard("names", names, ck)
    stream.check(ck)
