"""Models of the image, rayon, inflate and block decoder operations the canvas decoders use.

An image is one of
  imgnew(w, h)                       nothing written
  imgput(img, x, y, value)           one pixel written
  imgfn(w, h, ((facts, value), ..))  pixel (PX, PY) is the value of the one case whose facts hold
A table of blocks is blocks(n, ((facts, element), ..), bv)."""
from absint import models, witness

from .lib import *

IB = "image::ImageBuffer::<P, "
PX, PY = mk("sym", "px", 0), mk("sym", "py", 0)
t.settype(PX, "u32")
t.settype(PY, "u32")
RGB = "image::Rgb"
BIG = 1 << 28


def products(st, x, y, w, h):
    """x < w and y < h, with what that gives for the products the offsets are made of"""
    ok = st.assume(t.lt(x, w), True) and st.assume(t.lt(y, h), True)
    ok = ok and st.assume(t.lt(t.add(t.mul(y, w), x), t.mul(w, h)), True)
    return ok and st.assume(t.le(t.add(t.mul(y, w), w), t.mul(w, h)), True) and st.assume(t.le(ZERO, t.mul(y, w)), True)


def blockfacts(st, x, y, w, h):
    """the same for blocks of four"""
    cx, cy = t.div(t.add(w, Int(3)), Int(4)), t.div(t.add(h, Int(3)), Int(4))
    bx, by = t.div(x, Int(4)), t.div(y, Int(4))
    r = st.assume(t.le(t.add(bx, ONE), cx), True) and st.assume(t.le(t.add(by, ONE), cy), True)
    r = r and st.assume(t.lt(t.add(t.mul(by, cx), bx), t.mul(cx, cy)), True)
    r = r and st.assume(t.le(t.add(t.mul(by, cx), cx), t.mul(cx, cy)), True) and st.assume(t.le(t.mulc(t.mul(cx, cy), 16), Int(1 << 32)), True)
    return r


def new_facts(base, st):
    old = set((c.id, v) for c, v in witness.path_facts(base))
    return tuple((c, v) for c, v in witness.path_facts(st) if (c.id, v) not in old)


def from_fn(c):
    w, h, f = c.args
    base = c.st.fork()
    if not products(base, PX, PY, w, h) or not blockfacts(base, PX, PY, w, h):
        return c.ret(mk("imgfn", w, h, ()))
    cases, out = [], []
    for kind, s, v in c.I.call_closure(base.fork(), c.fr, f, [PX, PY], None, c.span):
        if kind == "ret":
            cases.append((new_facts(base, s), s.deep(v)))
        else:
            out.append((kind, s, v))
    return out + [("ret", c.st, mk("imgfn", w, h, tuple(cases)))]


def new(c):
    return c.ret(mk("imgnew", c.args[0], c.args[1]))


def put_pixel(c):
    img = c.load(c.args[0])
    v = c.st.deep(c.args[3])
    c.I.event(c.st, "put", (c.args[1], c.args[2], v), c.span)
    c.storep(c.args[0], mk("imgput", img, c.args[1], c.args[2], v))
    return c.ret(UNIT)


def get_pixel(c):
    return c.ret(mk("cref", pixel(c.load(c.args[0]), c.args[1], c.args[2])))


def pixel(img, x, y):
    while img.op == "imgput":
        d = t.and_(t.eq(img.a[1], x), t.eq(img.a[2], y))
        if d is TRUE:
            return img.a[3]
        if d is not FALSE:
            break
        img = img.a[0]
    return mk("pixelof", img, x, y)


t.REB["pixelof"] = pixel


def pixels_mut(c):
    return c.ret(mk("pixiter", c.args[0]))


def try_for_each(c):
    it = c.args[0]
    if it.op == "ref":
        it = c.load(it)
    if it.op != "pixiter":
        return None
    img = c.load(it.a[0])
    if img.op != "imgnew":
        return None
    w, h = img.a
    base = c.st.fork()
    if not products(base, PX, PY, w, h):
        return None
    base.nfr += 1
    cell = mk("loc", "pixel%d" % base.nfr, 0)
    base.mem[cell] = mk("pixelof", img, PX, PY)
    cases, out = [], []
    for kind, s, v in c.I.call_closure(base.fork(), c.fr, c.args[1], [t.tuple_(PX, PY, mk("ref", cell, ()))], None, c.span):
        if kind != "ret":
            out.append((kind, s, v))
        elif is_variant(v, "Ok"):
            cases.append((new_facts(base, s), s.deep(c.I.load(s, cell, ()))))
        else:
            out.append(("ret", s, v))
    c.storep(it.a[0], mk("imgfn", w, h, tuple(cases)))
    return out + [("ret", c.st, t.ok(UNIT))]


def par_chunks(c):
    return c.ret(mk("parchunks", c.load(c.args[0]), c.args[1]))


def try_fold_with(c):
    it, acc, f = c.args
    if it.op != "parchunks" or c.I.seqlen(acc) is not ZERO:
        return None
    seq, k = it.a
    n = c.I.seqlen(seq)
    whole = n
    cnt = None
    for e in c.st.trace:
        if e.r[0] == "call" and e.r[1] == "inflated" and e.r[2][2] is not None and c.st.decide(t.eq(e.r[2][2], n)) is True:
            whole = e.r[2][2]
    cc, d = t.aslin(whole)
    if k.op != "int" or any(v % k.a[0] for v in d.values()) or cc % k.a[0]:
        # the last chunk may be short
        cnt = t.div(t.add(n, t.sub(k, ONE)), k)
        size = None
    else:
        cnt = t.fromlin(cc // k.a[0], {x: v // k.a[0] for x, v in d.items()})
        size = k
    bv = mk("bv", 9100)
    t.settype(bv, "usize")
    base = c.st.fork()
    base.assume(t.lt(bv, cnt), True)
    if size is None:
        size = mk("sym", "chunk-length", 0)
        t.settype(size, "usize")
        base.assume(t.le(size, k), True)
        base.assume(t.le(ONE, size), True)
    base.nfr += 1
    A = mk("sym", "folded", 0)
    chunk = mk("cref", mk("sub", seq, t.mul(bv, k), size))
    cases, out = [], []
    for kind, s, v in c.I.call_closure(base.fork(), c.fr, f, [A, chunk], None, c.span):
        if kind != "ret":
            out.append((kind, s, v))
        elif is_variant(v, "Ok") and c.I.proj(s, v, ("vf", 0, 0)).op == "push" and c.I.proj(s, v, ("vf", 0, 0)).a[0] is A:
            cases.append((new_facts(base, s), s.deep(c.I.proj(s, v, ("vf", 0, 0)).a[1])))
        elif is_variant(v, "Err"):
            out.append(("ret", s, mk("agg", ("parerr",), (v,))))
        else:
            return None
    return out + [("ret", c.st, mk("parblocks", mk("blocks", cnt, tuple(cases), bv)))]


def try_reduce(c):
    it, ident, op = c.args
    if it.op == "agg" and it.a[0] == ("parerr",):
        return c.ret(it.a[1][0])
    if it.op != "parblocks":
        return None
    A, B = mk("sym", "left", 0), mk("sym", "right", 0)
    for kind, s, v in c.I.call_closure(c.st.fork(), c.fr, ident, [], None, c.span):
        if kind != "ret" or c.I.seqlen(v) is not ZERO:
            return None
    for kind, s, v in c.I.call_closure(c.st.fork(), c.fr, op, [A, B], None, c.span):
        if kind != "ret" or not is_variant(v, "Ok") or c.I.proj(s, v, ("vf", 0, 0)) is not mk("cat", A, B):
            return None
    return c.ret(t.ok(it.a[0]))


def is_variant(v, name):
    return v.op == "agg" and len(v.a[0]) > 3 and v.a[0][3] == name


def component(c):
    """Rgb(..)[i]"""
    p = c.args[0]
    root, pth = c.I.target(p)
    return c.ret(mk("ref", root, pth + (("f", 0), ("i", c.args[1]))))


def inflate(c):
    s = mk("sym", "pixels", 0)
    caps = [e.r[2][0] for e in c.st.trace if e.r[0] == "call" and e.r[1] == "reserve"]
    if caps:
        c.st.assume(t.le(c.I.seqlen(s), caps[-1]), True)
    c.storep(c.args[2], s)
    return [("ret", c.st.fork(), t.ok(mk("sym", "status", 0))), ("ret", c.st, t.err(mk("sym", "inflate-error", 0)))]


def with_capacity(c):
    c.I.event(c.st, "reserve", (c.args[0],), c.span)
    return c.ret(mk("empty"))


def bc7(c):
    """the decoder checks both lengths and fails on nothing else"""
    data, w, h, dst = c.args
    d, out = c.load(data), c.load(dst)
    n = t.mulc(t.mul(t.div(t.add(w, Int(3)), Int(4)), t.div(t.add(h, Int(3)), Int(4))), 16)
    fits = t.and_(t.le(n, c.I.seqlen(d)), t.le(t.mul(w, h), c.I.seqlen(out)))
    good = mk("made", c.I.seqlen(out), mk("call", "bc7", (d, w, h)))
    c.I.event(c.st, "bc7", (c.I.seqlen(d), w, h, c.I.seqlen(out)), c.span)
    res = []
    for s in c.I.assume_all(c.st.fork(), fits, True):
        root, pth = c.I.target(dst)
        c.I.store(s, root, pth, good)
        res.append(("ret", s, t.ok(UNIT)))
    for s in c.I.assume_all(c.st, fits, False):
        res.append(("ret", s, t.err(mk("sym", "bc7-error", 0))))
    return res


def from_raw(c):
    """an image of four channels made of these bytes"""
    w, h, v = c.args
    fits = t.le(t.mulc(t.mul(w, h), 4), c.I.seqlen(v))
    res = [("ret", s, t.some(mk("imgraw", w, h, v))) for s in c.I.assume_all(c.st.fork(), fits, True)]
    return res + [("ret", s, t.NONE) for s in c.I.assume_all(c.st, fits, False)]


def dynamic(c):
    v = c.args[0]
    return c.ret(mk("agg", ("adt", "image::DynamicImage", 0, "?"), (v,))) if v.op.startswith("img") else None


def step_by(c):
    """a counted range taken in steps: the i-th value is lo + i * step"""
    it, k = c.args
    if not (it.op == "agg" and it.a[0][0] == "adt" and it.a[0][1] == "std::ops::Range") or k.op != "int" or k.a[0] < 1:
        return None
    ety = models.range_elem(c)
    lo = t.settype(c.I.proj(c.st, it, ("f", 0)), ety)
    hi = t.settype(c.I.proj(c.st, it, ("f", 1)), ety)
    if c.st.decide(t.le(lo, hi)) is not True:
        return None
    n = t.div(t.add(t.sub(hi, lo), t.sub(k, ONE)), k)
    return c.ret(mk("agg", ("iter", "step", k, hi), (lo, ZERO, n)))


WIDTHS = []


def next_step(c):
    it = c.load(c.args[0])
    if it.op == "ref":
        it = c.load(it)
    if not (it.op == "agg" and it.a[0][:2] == ("iter", "step")):
        return None
    i, n = it.a[1][1:]
    res = models.iter_next(c)
    for kind, s, v in res:
        if v is not t.NONE:
            s.assume(t.le(ZERO, i), True)
            # i < n gives (i + 1) * w <= n * w
            for w in WIDTHS:
                s.assume(t.le(t.add(t.mul(i, w), w), t.mul(n, w)), True)
                s.assume(t.le(ZERO, t.mul(i, w)), True)
                if n is w:
                    # an inner loop over a row: j * w + i < (j + 1) * w <= m * w
                    for f, (lo, hi) in list(s.bounds.items()):
                        c0, d = t.aslin(f)
                        pos = [x for x, k in d.items() if x.op == "mul" and w in x.a and k == 1]
                        neg = [x for x, k in d.items() if x.op == "mul" and w in x.a and k == -1]
                        if hi == 0 and not c0 and len(d) == 3 and d.get(w) == 1 and pos and neg:
                            s.add_bound(t.sub(t.add(i, pos[0]), neg[0]), -t.INF, -1)
    return res


MODELS = {
    "std::iter::Iterator::step_by": step_by,
    "std::iter::Iterator::next": next_step,
    IB + "std::vec::Vec<<P as image::Pixel>::Subpixel>>::from_fn": from_fn,
    "image::buffer_par::<impl image::ImageBuffer<P, std::vec::Vec<<P as image::Pixel>::Subpixel>>>::from_par_fn": from_fn,
    IB + "std::vec::Vec<<P as image::Pixel>::Subpixel>>::new": new,
    IB + "Container>::put_pixel": put_pixel,
    IB + "Container>::get_pixel": get_pixel,
    IB + "Container>::enumerate_pixels_mut": pixels_mut,
    IB + "Container>::from_raw": from_raw,
    "std::iter::Iterator::try_for_each": try_for_each,
    "rayon::prelude::ParallelSlice::par_chunks": par_chunks,
    "rayon::iter::ParallelIterator::try_fold_with": try_fold_with,
    "rayon::iter::ParallelIterator::try_reduce": try_reduce,
    "<image::Rgb<T> as std::ops::IndexMut<usize>>::index_mut": component,
    "<image::Rgb<T> as std::ops::Index<usize>>::index": component,
    "<image::Rgba<T> as std::ops::IndexMut<usize>>::index_mut": component,
    "<image::Rgba<T> as std::ops::Index<usize>>::index": component,
    "flate2::Decompress::decompress_vec": inflate,
    "std::vec::Vec::<T>::with_capacity": with_capacity,
    "texture2ddecoder::decode_bc7": bc7,
}
