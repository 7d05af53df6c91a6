"""File header: the header parser is interpreted on an unconstrained buffer for each ident
and each documented case; every field of the result is compared with the value at its place
in the format, and short, over-long or unknown headers must be errors."""
from .lib import *

FLOOR = 25
H = "header::WzHeader"
PV = "util::version::PKGVersion"
IDS = {"V1": b"PKG1", "V2": b"PKG2"}


def W(n, *idx):
    return idx


H64 = dict(size=150, hash1=(0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67), hash2=(0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D), fsize=(0x12, 0x09, 0x02, 0x95), flag=4)
H32 = dict(size=68, hash1=(0x43, 0x1A, 0x30, 0x10), hash2=(0x2D, 0x07, 0x3F, 0x2E), fsize=(0x15, 0x19, 0x39, 0x41), flag=2)


def word(c, s, idx):
    x = ZERO
    for i, p in enumerate(idx):
        x = t.add(x, t.mulc(lev(1, False, s, Int(p)), 1 << (8 * i)))
    return x


def check(ck):
    FI = {}

    def fields():
        for f in ("ident", "fsize", "fstart", "data_start", "encrypt_version", "hash1", "hash2", "flags"):
            FI[f] = ck.fi(H, f)

    ck.guard("header fields", fields)

    def ctx(ident):
        def m(c):
            c.I.event(c.st, "ident", (c.I.content(c.st, c.args[0]),), c.span)
            return c.ret(t.ok(ck.mkenum(PV, ident)))

        c = ck.ctx(H + "::read_from_buf", opaque={H + "::get_ident": m})
        s = c.seq(c.a[0])
        c.assume(t.le(c.len(s), Int(1 << 62)))
        return c, s

    def failing(o):
        m = want_err(o)
        return m and taken(o, m)

    def header(o, want):
        """every named field has the given value"""
        if not o.is_ok():
            return taken(o, "expected a header, got %s" % sh(o.ret))
        tup = o.okval()
        hd = o.ctx.I.proj(o.st, tup, ("f", 0))
        for f, v in want.items():
            if f == "consumed":
                got = o.ctx.I.proj(o.st, tup, ("f", 1))
            else:
                got = o.ctx.I.proj(o.st, hd, ("f", FI[f]))
            if isinstance(v, str):
                if not is_variant(got, v):
                    if got.op == "agg" and got.a[0][0] == "adt":
                        return taken(o, "%s is %s, expected %s" % (f, sh(got), v))
                    raise Undecided("%s is %s" % (f, sh(got)))
                continue
            if isinstance(v, tuple):  # Some(x)
                if not is_variant(got, "Some"):
                    return taken(o, "%s is %s, expected %s" % (f, sh(got), sh(v[0])))
                got, v = got.a[1][0], v[0]
            if f == "flags":
                got = o.ctx.I.proj(o.st, got, ("f", 0))
            m = want_eq(o, got, v, f)
            if m:
                return m

    def v1(case):
        c, s = ctx("V1")
        L = c.len(s)
        F = lev(4, False, s, Int(12))
        size = lev(8, False, s, Int(4))
        ver = lev(2, False, s, F)
        cnt = lev(4, True, s, t.add(F, Int(2)))
        low = lev(1, False, s, t.add(F, Int(2)))
        for x, ty in ((F, "u32"), (size, "u64"), (ver, "u16"), (cnt, "i32"), (low, "u8")):
            t.settype(x, ty)
        base = dict(ident="V1", fsize=size, fstart=F, hash1=ZERO, hash2=ZERO, flags=ZERO, consumed=F)
        no = dict(base, encrypt_version="None", data_start=F)
        yes = dict(base, encrypt_version=(ver,), data_start=t.add(F, Int(2)))
        if case == "short":
            c.assume(t.lt(L, Int(16)))
            ck.case("pkg1:short", c, failing)
            return
        c.assume(t.le(Int(16), L))
        if case == "no room":
            c.assume(t.lt(L, t.add(F, Int(2))))
            w = no
        else:
            c.assume(t.le(t.add(F, Int(2)), L))
            if case == "size below 2":
                c.assume(t.lt(size, Int(2)))
                w = no
            else:
                c.assume(t.le(Int(2), size))
                if case == "word above 255":
                    c.assume(t.lt(Int(255), ver))
                    w = no
                elif case == "word":
                    c.assume(t.le(ver, Int(255))).assume(t.eq(ver, Int(0x80)), False)
                    w = yes
                else:
                    c.assume(t.eq(ver, Int(0x80)))
                    if case == "0x80, count missing":
                        c.assume(t.lt(L, t.add(F, Int(6))))
                        w = no
                    else:
                        c.assume(t.le(t.add(F, Int(6)), L))
                        if case == "0x80, count <= 0":
                            c.assume(t.le(cnt, ZERO))
                            w = yes
                        elif case == "0x80, count > 65535":
                            c.assume(t.lt(Int(65535), cnt))
                            w = yes
                        else:
                            c.assume(t.lt(ZERO, cnt)).assume(t.le(cnt, Int(65535)))
                            whole = case == "0x80, count of whole 256s"
                            c.assume(t.eq(t.bitop("band", [cnt, Int(255)]), ZERO), whole)
                            c.assume(t.eq(low, ZERO), whole)
                            w = no if whole else yes
        ck.case("pkg1:" + case, c, lambda o: header(o, w))

    for case in ("short", "no room", "size below 2", "word above 255", "word", "0x80, count missing", "0x80, count <= 0", "0x80, count > 65535", "0x80, count of whole 256s", "0x80, other count"):
        ck.guard("pkg1:" + case, v1, case)

    def v2(case):
        c, s = ctx("V2")
        L = c.len(s)
        F = lev(4, False, s, Int(12))
        t.settype(F, "u32")
        if case == "short":
            c.assume(t.lt(L, Int(16)))
            ck.case("pkg2:short", c, failing)
            return
        c.assume(t.le(Int(16), L))
        c.assume(t.le(t.add(F, Int(8)), L), case == "whole")
        if case == "no room":
            ck.case("pkg2:no room", c, failing)
            return
        w = dict(ident="V2", fsize=lev(8, False, s, Int(4)), fstart=F, consumed=F, data_start=t.add(F, Int(8)), encrypt_version="None", hash1=lev(4, False, s, F), hash2=lev(4, False, s, t.add(F, Int(4))), flags=ZERO)
        ck.case("pkg2:whole", c, lambda o: header(o, w))

    for case in ("short", "no room", "whole"):
        ck.guard("pkg2:" + case, v2, case)

    def rnd(case):
        c, s = ctx("Unknown")
        L = c.len(s)
        s64, s32 = word(c, s, H64["fsize"]), word(c, s, H32["fsize"])
        fit64 = t.eq(t.add(s64, Int(150)), L)
        fit32 = t.eq(t.add(s32, Int(68)), L)
        if case == "below 68 bytes":
            c.assume(t.lt(L, Int(68)))
            ck.case("random header:" + case, c, failing)
            return
        if case in ("68 to 149 bytes, size fits", "68 to 149 bytes, size differs"):
            c.assume(t.le(Int(68), L)).assume(t.lt(L, Int(150))).assume(fit32, case.endswith("fits"))
            h = H32 if case.endswith("fits") else None
        else:
            c.assume(t.le(Int(150), L))
            if case == "64 bit size fits":
                c.assume(fit64)
                h = H64
            else:
                c.assume(fit64, False)
                c.assume(fit32, case == "32 bit size fits")
                h = H32 if case == "32 bit size fits" else None
        if h is None:
            ck.case("random header:" + case, c, failing)
            return
        n = Int(h["size"])
        w = dict(ident="V2", fsize=word(c, s, h["fsize"]), fstart=n, data_start=n, consumed=n, encrypt_version="None", hash1=word(c, s, h["hash1"]), hash2=word(c, s, h["hash2"]), flags=Int(h["flag"]))
        ck.case("random header:" + case, c, lambda o: header(o, w))

    for case in ("below 68 bytes", "68 to 149 bytes, size fits", "68 to 149 bytes, size differs", "64 bit size fits", "32 bit size fits", "no size fits"):
        ck.guard("random header:" + case, rnd, case)

    # ------------------------------------------------------------ ident and public helpers
    def ident(case):
        c = ck.ctx(H + "::get_ident")
        s = c.seq(c.a[0])
        c.assume(t.le(c.len(s), Int(1 << 62)))
        c.assume(t.le(Int(4), c.len(s)), case != "short")
        if case == "short":
            ck.case("ident:short", c, failing)
            return

        def exp(o):
            if not o.is_ok():
                return "no ident: %s" % sh(o.ret)
            v = o.okval().a[0][3] if o.okval().op == "agg" else None
            facts = {}
            txt = None
            for f, (lo, hi) in o.st.bounds.items():
                if f.op == "seqeq" and lo == hi:
                    b = next((y for y in f.a if isinstance(y, t.T) and y.op == "bytes"), None)
                    if b is not None:
                        k = b.a[0]
                        facts[k if isinstance(k, bytes) else str(k).encode()] = bool(lo)
                    txt = f
                if f.op == "discr" and "pread" in t.show(f) and lo == hi == 1:
                    facts["bad"] = True
            if txt is not None and "sub(" not in t.show(txt):
                raise Undecided("ident is compared as %s" % sh(txt))
            want = "V1" if facts.get(b"PKG1") else "V2" if facts.get(b"PKG2") else "Unknown"
            if not facts:
                raise Undecided("ident is decided by %s" % o.pathdesc())
            if v != want:
                if want == "Unknown" and v in IDS and IDS[v] not in facts:
                    return "ident %s is not accepted by %r" % (v, IDS[v])
                return "a file beginning with %s gets ident %s" % (facts, v)
            if want == "Unknown" and "bad" not in facts and not (facts.get(b"PKG1") is False and facts.get(b"PKG2") is False):
                return "ident unknown although only %s were excluded" % facts

        ck.case("ident:whole", c, exp)

    ck.guard("ident:short", ident, "short")
    ck.guard("ident:whole", ident, "whole")

    def helper(fn, n, at, case):
        c = ck.ctx(H + "::" + fn)
        s = c.seq(c.a[0])
        c.assume(t.le(Int(at + n), c.len(s)), case == "whole")
        if case == "whole":
            ck.case("%s:%s" % (fn, case), c, want_ok(lev(n, False, s, Int(at))))
        else:
            ck.case("%s:%s" % (fn, case), c, failing)

    for fn, n, at in (("get_wz_fsize", 8, 4), ("get_wz_fstart", 4, 12)):
        for case in ("whole", "short"):
            ck.guard("%s:%s" % (fn, case), helper, fn, n, at, case)

    def low(fn, f):
        c = ck.ctx(H + "::" + fn)
        x = c.fld(c.a[0], FI[f])
        t.settype(x, "u64")
        ck.case(fn, c, lambda o: want_eq(o, o.ret, t.wrap(x, "u32"), "low half"))

    ck.guard("hash1_u32", low, "hash1_u32", "hash1")
    ck.guard("hash2_u32", low, "hash2_u32", "hash2")

    def flag(n):
        c = ck.ctx(H + "::is_pkg2_64")
        c.store(c.a[0], (FI["flags"], 0), Int(n))
        ck.case("is_pkg2_64 with flags %d" % n, c, lambda o: None if o.ret is (TRUE if n & 4 else FALSE) else "flags %d mean 64 bit = %s" % (n, sh(o.ret)))

    for n in (0, 1, 2, 4, 5):
        ck.guard("is_pkg2_64 with flags %d" % n, flag, n)
