"""Compressed integers and encoded strings: every reader entry point is interpreted
abstractly once per grammar case (sentinel, sign and length class of the first byte) and its
value, the located byte range, the character mask and the bytes consumed are compared with
the grammar's."""
from .lib import *
from .grammar import *

FLOOR = 55


def ints(ck):
    for name, free, n in (("read_wz_int", False, 4), ("read_wz_int64", False, 8), ("read_wz_long", False, 8),
                          ("read_wz_int", True, 4), ("read_wz_int64", True, 8), ("read_wz_long", True, 8)):
        def go(name=name, free=free, n=n):
            def mkc():
                if free:
                    c = ck.ctx("reader::" + name)
                    p = mk("sym", "at")
                    t.settype(p, "usize")
                    c.a[1] = t.some(p)
                    s = c.seq(c.a[0])
                else:
                    c = ck.ctx("reader::WzSliceReader::<'a>::" + name)
                    p = cursor(ck, c)
                    s = buf(ck, c)
                c.assume(t.le(p, Int(1 << 62)))
                b = lev(1, True, s, p)
                t.settype(b, "i8")
                return c, p, s, b

            pre = ("free." if free else "cursor.") + name

            def end(c, p, k):
                return [] if free else [cursor_is(ck, c, t.add(p, Int(k)))]

            c, p, s, b = mkc()
            c.assume(t.le(t.add(p, ONE), c.len(s))).assume(t.eq(b, Int(-128)), False)
            ck.case(pre + ":one byte", c, all_of(want_ok(b), *end(c, p, 1)))
            c, p, s, b = mkc()
            c.assume(t.le(t.add(p, Int(1 + n)), c.len(s))).assume(t.eq(b, Int(-128)))
            v = lev(n, True, s, t.add(p, ONE))
            ck.case(pre + ":sentinel", c, all_of(want_ok(v), *end(c, p, 1 + n)))
            c, p, s, b = mkc()
            c.assume(t.le(t.add(p, ONE), c.len(s)), False)
            ck.case(pre + ":no data", c, want_err)
            c, p, s, b = mkc()
            c.assume(t.le(t.add(p, ONE), c.len(s))).assume(t.eq(b, Int(-128))).assume(t.le(t.add(p, Int(1 + n)), c.len(s)), False)
            ck.case(pre + ":truncated", c, want_err)
            if free:
                c = ck.ctx("reader::" + name)
                c.a[1] = t.NONE
                s = c.seq(c.a[0])
                b = lev(1, True, s, ZERO)
                t.settype(b, "i8")
                c.assume(t.le(ONE, c.len(s))).assume(t.eq(b, Int(-128)), False)
                ck.case(pre + ":no offset", c, want_ok(b))

        ck.guard(name, go)


def metas(ck):
    def go():
        for i in range(5):
            c = ck.ctx("reader::WzSliceReader::<'a>::read_wz_string_meta")
            p, s = cursor(ck, c), buf(ck, c)
            label, facts, ty, off, ln = string_cases(c, s, p)[i]
            with_facts(c, facts)
            ck.case("meta:" + label, c, all_of(want_meta(ck, off, ln, ty), cursor_is(ck, c, t.add(off, ln))))
        for i in range(5):
            c = ck.ctx("reader::WzSliceReader::<'a>::read_wz_string", opaque=decrypt_models())
            p, s = cursor(ck, c), buf(ck, c)
            label, facts, ty, off, ln = string_cases(c, s, p)[i]
            with_facts(c, facts)
            ck.case("eager:" + label, c, all_of(want_text(ck, ty, off, ln, s), cursor_is(ck, c, t.add(off, ln))))
        for i in range(5):
            c = ck.ctx("reader::read_wz_string")
            s = c.seq(c.a[0])
            label, facts, ty, off, ln = string_cases(c, s, ZERO)[i]
            with_facts(c, facts)
            ck.case("free:" + label, c, want_text(ck, ty, off, ln, s, enc=False))

    ck.guard("strings", go)

    def explicit_zero():
        # an announced length of zero is an empty string of five bytes
        for fn, free in (("reader::WzSliceReader::<'a>::read_wz_string_meta", False), ("reader::WzSliceReader::<'a>::read_wz_string", False), ("reader::read_wz_string", True)):
            for sent in (127, -128):
                c = ck.ctx(fn, opaque=decrypt_models())
                p, s = (ZERO, c.seq(c.a[0])) if free else (cursor(ck, c), buf(ck, c))
                b, n = lev(1, True, s, p), lev(4, True, s, t.add(p, ONE))
                t.settype(b, "i8"), t.settype(n, "i32")
                c.assume(t.le(t.add(p, Int(5)), c.len(s))).assume(t.eq(b, Int(sent))).assume(t.eq(n, ZERO))
                es = [] if free else [cursor_is(ck, c, t.add(p, Int(5)))]

                def empty(o):
                    if not o.is_ok():
                        return "announced length zero is refused"
                    m = meta_fields(ck, o.okval()) if "meta" in o.ctx.body.path else None
                    l = m[1] if m else o.ctx.I.seqlen(o.okval())
                    if not o.same(l, ZERO) and not (text_of(o.okval())[0] and o.same(o.ctx.I.seqlen(text_of(o.okval())[1]), ZERO)):
                        return "announced length zero gives length %s" % sh(l)

                ck.case("%s:announced zero %d" % (fn, sent), c, all_of(empty, *es))

    ck.guard("explicit zero", explicit_zero)


def pkg2(ck):
    def go():
        for fn, w, meta in (("read_wz_string_pkg2_dir_meta", 1, True), ("read_wz_string_pkg2_u64_dir_meta", 2, True), ("read_wz_string_pkg2_dir", 1, False)):
            for neg in (True, False):
                c = ck.ctx("reader::WzSliceReader::<'a>::" + fn, opaque=decrypt_models())
                p, s = cursor(ck, c), buf(ck, c)
                b = lev(w, True, s, p)
                t.settype(b, "i8" if w == 1 else "i16")
                off = t.add(p, Int(w))
                c.assume(t.le(off, c.len(s)))
                if neg:
                    c.assume(t.le(b, Int(-1))).assume(t.le(Int(-(1 << (8 * w - 1)) + 1), b))
                    ln = t.mulc(b, -2)
                    c.assume(t.le(t.add(off, ln), c.len(s)))
                    e = want_meta(ck, off, ln, "Pkg2Dir") if meta else want_text(ck, "Pkg2Dir", off, ln, s)
                    ck.case(fn + ":text", c, all_of(e, cursor_is(ck, c, t.add(off, ln))))
                else:
                    c.assume(t.le(ZERO, b))
                    e = want_meta(ck, off, ZERO, "Empty") if meta else want_text(ck, "Empty", off, ZERO, s)
                    ck.case(fn + ":none", c, all_of(e, cursor_is(ck, c, off)))

    ck.guard("pkg2 directory strings", go)


INLINE = (0, 0x73)
REF = (1, 0x1B)


def blocks(ck):
    def one(fn, meta, tb, i, free, back=False):
        c = ck.ctx(("reader::" if free else "reader::WzSliceReader::<'a>::") + fn, opaque=decrypt_models())
        p, s = (ZERO, c.seq(c.a[0])) if free else (cursor(ck, c), buf(ck, c))
        k = lev(1, False, s, p)
        base = c.a[1]
        L = c.len(s)
        c.assume(t.le(t.add(p, ONE), L)).assume(t.eq(k, Int(tb)))
        if tb in INLINE:
            at = t.add(p, ONE)
        else:
            ref = lev(4, True, s, t.add(p, ONE))
            t.settype(ref, "i32")
            c.assume(t.le(t.add(p, Int(5)), L)).assume(t.le(base, Int(1 << 40)))
            if back:
                c.assume(t.lt(ref, ZERO)).assume(t.le(ZERO, t.add(base, ref)))
            else:
                c.assume(t.le(ZERO, ref))
            at = t.add(base, ref)
        label, facts, ty, off, ln = string_cases(c, s, at)[i]
        with_facts(c, facts)
        e = want_meta(ck, off, ln, ty) if meta else want_text(ck, ty, off, ln, s, enc=not free)
        fs = [e]
        if not free:
            fs.append(cursor_is(ck, c, t.add(off, ln) if tb in INLINE else t.add(p, Int(5))))
        ck.case("%s%s:%#x:%s%s" % ("free." if free else "", fn, tb, label, ":backwards" if back else ""), c, all_of(*fs))

    for fn, meta, free in (("read_wz_string_block", False, False), ("read_wz_string_block_meta", True, False), ("read_wz_string_block", False, True)):
        for tb in INLINE + REF:
            for i in range(5):
                ck.guard("%s:%#x" % (fn, tb), one, fn, meta, tb, i, free)
                if tb in REF:
                    ck.guard("%s:%#x:backwards" % (fn, tb), one, fn, meta, tb, i, free, True)

        def other(fn=fn, meta=meta, free=free):
            c = ck.ctx(("reader::" if free else "reader::WzSliceReader::<'a>::") + fn, opaque=decrypt_models())
            p, s = (ZERO, c.seq(c.a[0])) if free else (cursor(ck, c), buf(ck, c))
            k = lev(1, False, s, p)
            c.assume(t.le(t.add(p, ONE), c.len(s)))
            for tb in INLINE + REF:
                c.assume(t.eq(k, Int(tb)), False)
            e = want_meta(ck, ZERO, ZERO, "Empty") if meta else want_text(ck, "Empty", ZERO, ZERO, s, enc=not free)
            fs = [e] + ([] if free else [cursor_is(ck, c, t.add(p, ONE))])
            ck.case("%s%s:other kind" % ("free." if free else "", fn), c, all_of(*fs))

        ck.guard(fn + ":other", other)


def check(ck):
    ints(ck)
    metas(ck)
    pkg2(ck)
    blocks(ck)
