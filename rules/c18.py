"""Offset and hash formulas: every calculator is interpreted abstractly on unconstrained
header and entry fields and its result compared, as a value number modulo the width,
with the format's formula. A formula that differs in normal form is reported only with an
input on which the two formulas give different values."""
from .lib import *
from absint import models

FLOOR = 30
HD = "header::WzHeader"
OM = "util::offset::WzOffsetMeta"
OV = "util::offset::WzOffsetVersion"
K = 0x581C3F6D


def w(x):
    return t.wrap(x, "u32")


def w64(x):
    return t.wrap(x, "u64")


def xor(*a):
    return t.settype(t.bitop("bxor", list(a)), "u64")


def xor32(*a):
    return t.settype(t.bitop("bxor", list(a)), "u32")


def inv(x):
    return t.sub(Int(0xFFFFFFFF), x)


def rotl(x, n):
    if not isinstance(n, T_):
        n = Int(n)
    if n.op == "int":
        return t.settype(models.rotl(x, n.a[0] % 32, 32), "u32")
    return t.settype(mk("rotl", x, n, 32), "u32")


T_ = t.T


def mix(k):
    k = xor32(k, t.shr(k, Int(16)))
    k = w(t.mulc(k, 0x7FEB352D))
    k = xor32(k, t.shr(k, Int(15)))
    k = w(t.mulc(k, 0x846CA68B))
    return xor32(k, t.shr(k, Int(16)))


def m31(x):
    return t.bitop("band", [x, Int(0x1F)])


def m15(x):
    return t.bitop("band", [x, Int(0xF)])


def offsets(ck, ctx):
    fstart = ctx.fld(ctx.a[0], ck.fi(HD, "fstart"))
    hash1 = ctx.fld(ctx.a[0], ck.fi(HD, "hash1"))
    h = ctx.fld(ctx.a[1], ck.fi(OM, "hash"))
    enc = ctx.fld(ctx.a[1], ck.fi(OM, "encrypted_offset"))
    off = ctx.fld(ctx.a[1], ck.fi(OM, "offset"))
    for x, ty in ((fstart, "usize"), (hash1, "u64"), (h, "u64"), (enc, "u32"), (off, "usize")):
        t.settype(x, ty)
    return fstart, w(hash1), w(h), enc, off


def f_pkg1(fs, h1, h, enc, off):
    x = w(t.sub(w(t.mul(inv(w(t.sub(off, fs))), h)), Int(K)))
    x = rotl(x, m31(x))
    return w(t.add(xor32(x, enc), t.mulc(fs, 2)))


def f_v1(fs, h1, h, enc, off):
    x = w(t.sub(t.mul(inv(w(t.sub(off, fs))), h), Int(K)))
    x = xor32(x, w(t.mulc(h1, 0x01010101)))
    x = rotl(x, m31(xor32(h, h1)))
    return w(t.add(xor32(x, enc), fs))


def f_v2(fs, h1, h, enc, off):
    x = w(t.sub(t.mul(inv(w(t.sub(off, fs))), xor32(h, h1)), Int(K)))
    x = xor32(x, w(t.mulc(h1, 0x01010101)))
    x = rotl(x, m31(xor32(h, h1)))
    return w(t.add(xor32(x, inv(enc)), fs))


def f_v3(fs, h1, h, enc, off):
    p = xor32(h1, h)
    m = xor32(mix(xor32(p, Int(0x6D4C3B2A))), Int(0x91E10DA5))
    x = w(t.sub(t.mul(inv(w(t.sub(off, fs))), w(t.add(p, xor32(m, Int(0xA7E3C093))))), Int(K)))
    x = xor32(x, w(t.mulc(h1, 0x01010101)), w(t.mulc(m, 0x9E3779B9)))
    x = rotl(x, m31(xor32(p, m)))
    return w(t.add(xor32(x, inv(enc)), fs))


def f_64(fs, h1, h, enc, off):
    p = xor32(h1, h)
    m = xor32(p, Int(0x33BBBB33))
    x = w(t.sub(t.mul(inv(w(t.sub(off, fs))), w(t.add(p, xor32(m, Int(0xA7E3C093))))), Int(K)))
    x = xor32(x, w(t.mulc(h1, 0x01010101)), w(t.mulc(m, 0x9E3779B9)))
    x = rotl(x, 19)
    return w(t.add(xor32(x, inv(enc)), fs))


FORMULA = {"Pkg1": f_pkg1, "Pkg2V1": f_v1, "Pkg2V2": f_v2, "Pkg2V3": f_v3, "Pkg2_64V1": f_64}
KEY = 0x1A2B3C4D
KEY4 = 0x6D4C3B2A
KEY5 = 0x2A2C818B
KEY6 = 0xABCDEF0123456789


def fnvalue(ck, path, variant, label):
    """function chosen by get_calculator & co for a version"""
    c = ck.ctx(path, args=[])
    c.store(c.a[0], (), ck.mkenum(OV, variant))
    outs = [o for o in c.run() if o.kind == "ret"]
    if len(outs) != 1 or outs[0].ret.op != "fn":
        raise Missing("%s gives no single function for %s" % (path, variant))
    return outs[0].ret.a[0]


def check(ck):
    def offset(variant):
        f = fnvalue(ck, "util::offset::WzOffsetVersion::get_calculator", variant, variant)
        c = ck.ctx(f)
        a = offsets(ck, c)
        c.assume(t.le(a[0], Int((1 << 62))))
        want = FORMULA[variant](*a)

        def exp(o):
            if not o.is_ok():
                return "no offset: %s" % sh(o.ret)
            return want_eq(o, o.okval(), want, "offset")

        ck.case("offset formula of %s" % variant, c, exp)

    for v in FORMULA:
        ck.guard("offset formula of %s" % v, offset, v)

    def count():
        f = fnvalue(ck, "util::offset::WzOffsetVersion::get_entry_count_calculator", "Pkg2_64V1", "count")
        for case in ("accepted", "refused"):
            c = ck.ctx(f)
            h1 = c.fld(c.a[0], ck.fi(HD, "hash1"))
            t.settype(h1, "u64"), t.settype(c.a[1], "u64"), t.settype(c.a[2], "i64")
            x = t.bitop("bxor", [c.a[2], t.wrap(h1, "i64"), t.wrap(c.a[1], "i64"), Int(0x550EC4DD02C468EC)])
            t.settype(x, "i64")
            n = t.shr(x, Int(16))
            t.settype(n, "i64")
            if case == "refused":
                c.assume(t.le(n, Int((1 << 31) - 1)), False)
                ck.case("entry count:refused", c, want_err)
            else:
                c.assume(t.le(ZERO, n)).assume(t.le(n, Int((1 << 31) - 1)))

                def exp(o):
                    if not o.is_ok():
                        return "count refused"
                    return want_eq(o, o.okval(), n, "entry count")

                ck.case("entry count:accepted", c, exp)

    ck.guard("entry count", count)

    # ------------------------------------------------------------ version hashes
    def vhash():
        c = ck.ctx("util::version::pkg1::VersionGen::calculate_version_hash")
        t.settype(c.a[0], "i32")
        ck.case("pkg1 hash", c, lambda o: want_eq(o, o.ret, pkg1hash(c.a[0]), "version hash"))

    def pkg1hash(v):
        # sum over the decimal digits: h = h * 32 + digit + 1
        digits = mk("seqof", "chars", mk("call", "to_string", (mk("unk", "i32"), v)))
        bv = mk("bv", 0)
        bv.ty = "u64"
        acc = mk("acc", 0, "u32")
        acc.ty = "u32"
        el = mk("call", "std::char::methods::<impl char>::to_ascii_lowercase", (mk("at", mk("elem", digits, bv)),))
        f = mk("fold", ZERO, w(t.add(t.mulc(acc, 32), t.add(el, ONE))), bv, acc, mk("len", digits))
        return t.settype(f, "u32")

    ck.guard("pkg1 hash", vhash)

    def vcheck(case):
        G = "util::version::pkg1::VersionGen"
        c = ck.ctx("<util::version::pkg1::VersionGen as std::iter::Iterator>::next")
        enc = c.fld(c.a[0], ck.fi(G, "encver"))
        cur = c.fld(c.a[0], ck.fi(G, "current"))
        mx = c.fld(c.a[0], ck.fi(G, "max_version"))
        for x in (enc, cur, mx):
            t.settype(x, "i32")
        h = pkg1hash(cur)
        by = [t.wrap(t.shr(h, Int(8 * i)), "u8") for i in range(4)]
        for b in by:
            t.settype(b, "u8")
        e = xor32(Int(0xFF), *by)
        t.settype(e, "u8")
        if case == "done":
            c.assume(t.lt(mx, cur))
            ck.case("pkg1 candidates:done", c, lambda o: None if is_variant(o.ret, "None") else "a candidate behind the last: %s" % sh(o.ret))
            return
        c.assume(t.le(cur, mx)).assume(t.lt(cur, Int((1 << 31) - 1)))
        if case == "same":
            c.assume(t.eq(enc, cur))
            want = h
        else:
            c.assume(t.eq(enc, cur), False)
            c.assume(t.eq(e, w(enc)), case == "match")
            want = h if case == "match" else ZERO

        def exp(o):
            if not is_variant(o.ret, "Some"):
                return "no candidate: %s" % sh(o.ret)
            p = o.ret.a[1][0]
            return want_eq(o, o.ctx.I.proj(o.st, p, ("f", 0)), cur, "candidate version") or \
                want_eq(o, o.ctx.I.proj(o.st, p, ("f", 1)), want, "candidate hash") or \
                want_eq(o, o.fld(c.a[0], ck.fi(G, "current")), t.add(cur, ONE), "next candidate")

        ck.case("pkg1 candidates:%s" % case, c, exp)

    for case in ("done", "same", "match", "differ"):
        ck.guard("pkg1 candidates:" + case, vcheck, case)

    def h_v1(h1, h2, x):
        return t.eq(xor32(rotl(h1, 7), x), h2)

    def h_v2(h1, h2, x):
        b = xor32(h1, w(t.add(x, Int(KEY))))
        return t.eq(xor32(rotl(b, m31(x)), x), h2)

    def h_v3(h1, h2, x):
        b = xor32(h1, w(t.add(x, Int(KEY))))
        return t.eq(inv(xor32(rotl(b, t.add(m15(x), m15(h1))), x, h1)), h2)

    def v45(h1, x):
        mb = xor32(h1, x)
        mh = xor32(mix(xor32(mb, Int(KEY4))), Int(0x91E10DA5))
        b = xor32(h1, w(t.add(t.add(t.wrap(mh, "u16"), x), Int(KEY))))
        r = rotl(b, t.add(m15(xor32(mh, x)), m15(h1)))
        return xor32(r, w(t.add(mb, mh)))

    def h_v4(h1, h2, x):
        return t.eq(v45(h1, x), inv(h2))

    def h_v5(h1, h2, x):
        return t.eq(xor32(v45(h1, x), Int(KEY5)), h2)

    def h_v6(h1, h2, x):
        return t.eq(x, xor(h1, h2, Int(KEY6)))

    H = {"V1": h_v1, "V2": h_v2, "V3": h_v3, "V4": h_v4, "V5": h_v5, "V6": h_v6}

    def verify(v):
        c = ck.ctx("util::version::pkg2::Pkg2VersionGen%s::verify_hash" % v)
        for x in c.a:
            t.settype(x, "u64" if v == "V6" else "u32")
        f = H[v](*c.a)
        # a witness needs accepted hashes, which random inputs never hit: compare both truth values
        for val in (True, False):
            c = ck.ctx("util::version::pkg2::Pkg2VersionGen%s::verify_hash" % v)
            for x in c.a:
                t.settype(x, "u64" if v == "V6" else "u32")
            c.assume(f, val)
            ck.case("hash family %s:%s" % (v, "accepts" if val else "refuses"), c, lambda o: want_eq(o, o.ret, TRUE if val else FALSE, "acceptance of a hash"))

    for v in H:
        ck.guard("hash family " + v, verify, v)

    # ------------------------------------------------------------ candidate hashes of a header
    def gen(v):
        ty = "u64" if v == "V6" else "u32"
        c = ck.ctx("<util::version::pkg2::Pkg2VersionGen%s as util::version::pkg2::VersionGenerator<%s>>::get_iter" % (v, ty))
        outs = [o for o in c.run() if o.kind == "ret"]
        if not outs:
            raise Undecided("no returning path")
        G = "util::version::pkg2::Pkg2VersionGen%s" % v
        for o in outs:
            x = o.content(o.ret)
            if v in ("V1", "V6"):
                arrs = list(t.atoms(x, lambda y: y.op == "agg" and y.a[0] == ("array",)))
                arr = arrs[0] if len(arrs) == 1 else None
                if arr is None or len(arr.a[1]) != 1:
                    raise Undecided("the candidates are %s" % sh(x))
                cand = arr.a[1][0]
                h1 = next(iter(t.atoms(cand, lambda y: y.op == "fld" and y.a[0].op == "val" and y.a[1] == ck.fi(G, "hash1"))), None)
                h2 = next(iter(t.atoms(cand, lambda y: y.op == "fld" and y.a[0].op == "val" and y.a[1] == ck.fi(G, "hash2"))), None)
                if h1 is None or h2 is None:
                    ck.bad("candidates:" + v, c.where(), "the candidate hash %s does not use both stored hashes" % sh(cand))
                    return
                want = xor32(rotl(h1, 7), h2) if v == "V1" else xor(h1, h2, Int(KEY6))
                m = want_eq(o, cand, want, "candidate hash")
                if m:
                    ck.bad("candidates:" + v, c.where(), m)
                    return
            else:
                rs = t.atoms(x, lambda y: y.op == "agg" and y.a[0][0] == "adt" and y.a[0][3] in ("RangeInclusive", "Range"))
                if not rs:
                    raise Undecided("the searched range is %s" % sh(x))
                r = rs[0]
                lo, hi = r.a[1][0], r.a[1][1]
                end = hi.a[0] if hi.op == "int" else None
                if end is not None and r.a[0][3] == "Range":
                    end -= 1
                if lo is not ZERO or end != 0xFFFFFFFF:
                    ck.bad("candidates:" + v, c.where(), "the hash is searched from %s to %s, not over all 32 bit values" % (sh(lo), end))
                    return
        ck.ok("candidates:" + v)

    for v in ("V1", "V4", "V5", "V6"):
        ck.guard("candidates:" + v, gen, v)

    # ------------------------------------------------------------ key derivation
    def keys():
        c = ck.ctx("util::string_decryptor::pkg2_decryptor::get_kmst1199_key")
        a, b = c.a
        t.settype(a, "u32"), t.settype(b, "u32")
        want = mix(xor32(mix(xor32(a, b, Int(0x6D4C3B2A))), Int(0x4F4CB34A)))
        ck.case("1199 key", c, lambda o: want_eq(o, o.ret, want, "key"))
        c = ck.ctx("util::string_decryptor::pkg2_decryptor::get_kmst1202_key")
        a, b = c.a
        t.settype(a, "u64"), t.settype(b, "u64")
        want2 = xor(a, b, Int(0x66B57FEE317FD3DF))
        ck.case("1202 key", c, lambda o: want_eq(o, o.ret, want2, "key"))

    ck.guard("key derivation", keys)
