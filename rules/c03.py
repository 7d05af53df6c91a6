"""Cursor restoration of referenced-string reads: on every return path (success, decode
error, decryption failure, out-of-range reference) of the functions that follow a string
reference, the cursor is where it stood behind the reference itself."""
from .lib import *
from .grammar import *

FLOOR = 12
W = "reader::WzSliceReader::<'a>::"


def both(ck, c, p, q):
    """cursor p unless the reference itself was read completely (then q)"""

    def f(o):
        r = at_cursor(ck, o, c)
        return want_eq(o, r, q, "the cursor at the end")

    return f


def check(ck):
    def at(fn, fail):
        c = ck.ctx(W + fn, opaque=decrypt_models(fail))
        p = cursor(ck, c)
        c.assume(t.le(p, Int(1 << 62)))
        ck.case("%s:%s" % (fn, "key failure" if fail else "keys"), c, cursor_is(ck, c, p))

    for fn in ("read_wz_string_meta_at", "read_wz_string_at_offset"):
        for fail in (False, True):
            ck.guard(fn, at, fn, fail)

    def block(fn, tb, case, fail):
        c = ck.ctx(W + fn, opaque=decrypt_models(fail))
        p, s = cursor(ck, c), buf(ck, c)
        k = lev(1, False, s, p)
        ref = lev(4, True, s, t.add(p, ONE))
        t.settype(ref, "i32")
        c.assume(t.le(p, Int(1 << 62))).assume(t.le(t.add(p, Int(5)), c.len(s))).assume(t.eq(k, Int(tb)))
        if case == "low":
            c.assume(t.lt(ref, ZERO))
        else:
            c.assume(t.le(ZERO, ref)).assume(t.le(c.a[1], Int(1 << 62)))
        ck.case("%s:%#x:%s%s" % (fn, tb, case, ":key failure" if fail else ""), c, cursor_is(ck, c, t.add(p, Int(5))))

    for fn in ("read_wz_string_block", "read_wz_string_block_meta"):
        for tb in (1, 0x1B):
            for case in ("low", "any"):
                for fail in (False, True) if fn == "read_wz_string_block" else (False,):
                    ck.guard(fn, block, fn, tb, case, fail)
