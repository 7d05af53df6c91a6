"""Fixed-width reads: each positioned and sequential read is interpreted abstractly and its
returned value, error condition and cursor effect compared with the width and byte order
its name declares, in the two cases 'inside the data' and 'leaves the data'."""
from .lib import *

FLOOR = 70
W = {"u8": U8, "i8": I8, "u16": U16, "i16": I16, "u32": U32, "i32": I32, "u64": U64, "i64": I64, "float": (4, "f32"), "double": (8, "f64")}


def value(ty, seq, pos):
    n, s = W[ty]
    if isinstance(s, str):
        return mk("bits", lev(n, False, seq, pos), s)
    return lev(n, s, seq, pos)


def readers(ck):
    SR = "reader::WzSliceReader"
    BR = "reader::WzBaseReader"
    return {
        "slice": ("<reader::WzSliceReader<'a> as reader::Reader>::read_%s_at", lambda c: c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))),
        "map": ("<reader::WzBaseReader<T> as reader::Reader>::read_%s_at", lambda c: base_seq(ck, c)),
    }


def base_seq(ck, c):
    # the bytes the map exposes through AsRef, found through the reader's own accessor
    c2 = ck.ctx("reader::WzBaseReader::<T>::get_ref_slice", args=[c.a[0]])
    outs = [o for o in c2.run() if o.kind == "ret"]
    if len(outs) != 1:
        raise Missing("get_ref_slice has %d outcomes" % len(outs))
    o = outs[0]
    r, p = c2.I.target(o.ret)
    return c2.I.load(o.st, r, p)


def in_out(ck, label, mkctx, ty, seqof, pos, after=None):
    n = W[ty][0]
    c = mkctx()
    s = seqof(c)
    p = pos(c)
    c.assume(t.le(t.add(p, Int(n)), c.len(s)))
    fs = [want_ok(value(ty, s, p))]
    if after:
        fs.append(after(c, p, n))
    ck.case(label + ":in-bounds", c, all_of(*fs))
    c = mkctx()
    s = seqof(c)
    p = pos(c)
    c.assume(t.le(t.add(p, Int(n)), c.len(s)), False)
    c.assume(t.le(p, Int((1 << 62))))
    ck.case(label + ":out-of-bounds", c, want_err)


def check(ck):
    rd = readers(ck)
    for kind, (pat, seqof) in rd.items():
        for ty in W:
            def go(kind=kind, pat=pat, seqof=seqof, ty=ty):
                in_out(ck, "%s.read_%s_at" % (kind, ty), lambda: ck.ctx(pat % ty), ty, seqof, lambda c: c.a[1])

            ck.guard("%s.read_%s_at" % (kind, ty), go)
    for ty in list(W)[:8]:
        def go(ty=ty):
            in_out(ck, "read_%s_at" % ty, lambda: ck.ctx("reader::read_%s_at" % ty), ty, lambda c: c.seq(c.a[0]), lambda c: c.a[1])

        ck.guard("read_%s_at" % ty, go)
    # sequential reads of the cursor reader
    SR = "reader::WzSliceReader"

    def cursor(c):
        p = c.fld(c.a[0], ck.fi(SR, "pos"), 0)
        t.settype(p, "usize")
        return p

    def moved(c, p, n):
        def f(o):
            q = o.fld(c.a[0], ck.fi(SR, "pos"), 0)
            return want_eq(o, q, t.add(p, Int(n)), "the cursor behind the value")

        return f

    for ty in W:
        def go(ty=ty):
            in_out(ck, "cursor.read_%s" % ty, lambda: ck.ctx("reader::WzSliceReader::<'a>::read_%s" % ty), ty,
                   lambda c: c.seq(c.fld(c.a[0], ck.fi(SR, "buf"))), cursor, moved)

        ck.guard("cursor.read_%s" % ty, go)

    # cursor primitives
    def prim():
        c = ck.ctx("reader::WzSliceReader::<'a>::seek")
        ck.case("seek", c, lambda o: want_eq(o, o.fld(c.a[0], ck.fi(SR, "pos"), 0), c.a[1], "the cursor after seek"))
        c = ck.ctx("reader::WzSliceReader::<'a>::skip")
        p = cursor(c)
        t.settype(c.a[1], "usize")
        c.assume(t.le(t.add(p, c.a[1]), Int((1 << 64) - 1)))
        ck.case("skip", c, lambda o: want_eq(o, o.fld(c.a[0], ck.fi(SR, "pos"), 0), t.add(p, c.a[1]), "the cursor after skip"))
        c = ck.ctx("<reader::WzSliceReader<'a> as reader::Reader>::get_size")
        s = c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))
        ck.case("slice.get_size", c, lambda o: want_eq(o, o.ret, c.len(s), "size"))
        c = ck.ctx("<reader::WzBaseReader<T> as reader::Reader>::get_size")
        s2 = base_seq(ck, c)
        ck.case("map.get_size", c, lambda o: want_eq(o, o.ret, c.len(s2), "size"))
        c = ck.ctx("reader::WzSliceReader::<'a>::available")
        s3 = c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))
        p3 = cursor(c)
        c.assume(t.le(p3, c.len(s3)))
        ck.case("available", c, lambda o: want_eq(o, o.ret, t.sub(c.len(s3), p3), "available"))
        c = ck.ctx("reader::WzSliceReader::<'a>::is_valid_pos")
        s4 = c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))
        c.assume(t.le(c.a[1], c.len(s4)))
        ck.case("is_valid_pos:in", c, lambda o: want_eq(o, o.ret, TRUE, "is_valid_pos inside the data"))
        c = ck.ctx("reader::WzSliceReader::<'a>::is_valid_pos")
        c.assume(t.le(c.a[1], c.len(s4)), False)
        ck.case("is_valid_pos:out", c, lambda o: want_eq(o, o.ret, FALSE, "is_valid_pos past the end"))

    ck.guard("cursor primitives", prim)

    # slices: exactly the requested range or an error
    def slices():
        for kind, fn, seqof in (("slice", "reader::WzSliceReader::<'a>::get_slice_or_error", lambda c: c.seq(c.fld(c.a[0], ck.fi(SR, "buf")))),
                                ("map", "reader::WzBaseReader::<T>::get_slice_or_error", lambda c: base_seq(ck, c))):
            for inside in (True, False):
                lo, hi = mk("sym", "lo"), mk("sym", "hi")
                t.settype(lo, "usize"), t.settype(hi, "usize")
                c = ck.ctx(fn)
                c.a[1] = t.adt("std::ops::Range", 0, "Range", (lo, hi))
                s = seqof(c)
                c.assume(t.le(lo, hi))
                c.assume(t.le(hi, c.len(s)), inside)

                def exp(o, c=c, s=s, lo=lo, hi=hi):
                    if not o.is_ok():
                        return "in-range slice refused: %s" % sh(o.ret)
                    r, p = c.I.target(o.okval())
                    v = c.I.load(o.st, r, p)
                    w = c.I.subseq(o.st, s, lo, t.sub(hi, lo))
                    return None if v is w else "slice is %s, expected %s" % (sh(v), sh(w))

                ck.case("%s.get_slice_or_error:%s" % (kind, "in" if inside else "out"), c, exp if inside else want_err)

    ck.guard("slices", slices)
