"""Canvas formats. The format table is read off the conversion of a code, path by path. For every
format an object made by the public constructor is decoded with symbolic dimensions and inflated
bytes of symbolic content: with exactly the bytes of the format no path fails or indexes out of
range, with fewer every path answers an error. The pixel function of the default and of the
single-threaded build are brought to the same form (a function of the position and the inflated
bytes, block formats per block and place in the block) and compared; a difference needs bytes at
which the two give different colours."""
from absint import witness
from absint.models import minmax

from .lib import *
from .images import *
from . import images

FLOOR = 20
P = "property::png::WzPng"
F = "property::png::WzPngFormat"
CFGS = ("default", "noray")
# bytes of a canvas by format: per pixel, or per block of 4x4
PIXEL = {"BGRA4444": 2, "BGRA8888": 4, "ARGB1555": 2, "RGB565": 2, "R16": 2, "RGBA1010102": 4}
BLOCK = {"DXT3": 16, "DXT3SM": 16, "DXT5": 16, "BC7": 16}
TILE = ("RGB565_517",)
CODES = {"BGRA4444": 1, "BGRA8888": 2, "DXT3SM": 3, "ARGB1555": 257, "RGB565": 513, "RGB565_517": 517, "R16": 769, "DXT3": 1026,
         "DXT5": 2050, "A8": 2304, "RGBA1010102": 2562, "DXT1": 4097, "BC7": 4098, "RGBA32Float": 4100}


def check(ck):
    for cfg in CFGS:
        ck.guard("format table, %s" % cfg, table, ck, cfg)
    jobs = [(cfg, f) for f in CODES for cfg in CFGS]
    pics = {}
    for cfg, f in jobs:
        pics[cfg, f] = ck.guard("%s, %s" % (f, cfg), decode, ck, cfg, f)
    for f in CODES:
        if f in PIXEL or f in BLOCK or f in TILE:
            ck.guard("%s, both builds" % f, same_picture, ck, f, pics["default", f], pics["noray", f])


# ------------------------------------------------------------ the table
def table(ck, cfg):
    c = ck.ctx(P + "::new", cfg=cfg, args=[None, None, t.tuple_(*u32s("format1", "format2"))])
    made = [o for o in c.run() if o.kind == "ret"]
    if len(made) != 1:
        raise Undecided("the constructor has %d outcomes" % len(made))
    d = follow(ck, made[0], P + "::format", [(made[0].ret,)], cfg=cfg)
    code = t.wrap(t.add(*u32s("format1", "format2")), "u32")
    one_table(ck, "the format of a canvas, %s" % cfg, d, code)
    for b in ck.prog(cfg).find("from"):
        if b.impl_trait and b.path.startswith("<" + F) and b.argc == 1:
            e = ck.ctx(b, cfg=cfg)
            one_table(ck, "the format of a code, %s" % cfg, e, e.a[0])


def u32s(*names):
    r = []
    for n in names:
        s = mk("sym", n, 0)
        t.settype(s, "u32")
        r.append(s)
    return r


def one_table(ck, label, c, code):
    t.settype(code, "u32")
    seen = {}

    def f(o):
        v = o.ret
        if v.op == "agg" and v.a[0][1] == F:
            name = v.a[0][3]
        else:
            raise Undecided("answers %s" % sh(v))
        seen[name] = True
        if name == "Unknown":
            for n, k in CODES.items():
                m = shown(o, t.not_(t.eq(code, Int(k))), "the code %d of %s is not known" % (k, n))
                if m:
                    return m
            return None
        if name not in CODES:
            raise Undecided("a format %s this check does not know" % name)
        return shown(o, t.eq(code, Int(CODES[name])), "another code than %d becomes %s" % (CODES[name], name))

    ck.case(label, c, f)
    for n in CODES:
        if n not in seen:
            ck.bad(label + ": " + n, c.where(), "no code becomes %s" % n)


# ------------------------------------------------------------ decoding
def size_of(f, w, h):
    if f in PIXEL:
        return t.mulc(t.mul(w, h), PIXEL[f])
    if f in BLOCK:
        return t.mulc(t.mul(t.div(t.add(w, Int(3)), Int(4)), t.div(t.add(h, Int(3)), Int(4))), BLOCK[f])
    if f in TILE:
        return t.div(t.mul(w, h), Int(128))
    return None


W, H = u32s("width", "height")
PIXELS = mk("sym", "pixels", 0)
images.WIDTHS[:] = [t.div(t.add(W, Int(3)), Int(4))]


def canvas(ck, cfg, f, models):
    c = ck.ctx(P + "::new", cfg=cfg, args=[None, t.tuple_(W, H), t.tuple_(Int(CODES[f]), ZERO), None, Int(0x9C78)])
    c.assume(t.le(W, Int(BIG)))
    c.assume(t.le(H, Int(BIG)))
    c.assume(t.le(t.mul(W, H), Int(BIG)))
    c.assume(t.le(ONE, W))
    c.assume(t.le(ONE, H))
    cx, cy = t.div(t.add(W, Int(3)), Int(4)), t.div(t.add(H, Int(3)), Int(4))
    c.assume(t.le(t.mulc(t.mul(cx, cy), 16), Int(1 << 32)))
    made = [o for o in c.run() if o.kind == "ret"]
    if len(made) != 1:
        raise Undecided("the constructor has %d outcomes" % len(made))
    d = follow(ck, made[0], P + "::extract_png", [(made[0].ret,)], models, cfg)
    d.I.max_steps = 4000000
    return d


def inflated(size, full):
    """the inflated bytes: exactly those of the canvas, or fewer"""

    def f(c):
        c.storep(c.args[2], PIXELS)
        err = c.st.fork()
        n = c.I.seqlen(PIXELS)
        caps = [e.r[2][0] for e in c.st.trace if e.r[0] == "call" and e.r[1] == "reserve"]
        c.I.event(c.st, "inflated", (c.load(c.args[1]), caps[-1] if caps else None, size if full else None), c.span)
        out = [("ret", err, t.err(mk("sym", "inflate-error", 0)))]
        if size is None or c.st.assume(t.eq(n, size) if full else t.lt(n, size), True):
            out.append(("ret", c.st, t.ok(mk("sym", "status", 0))))
        return out

    return f


def events_of(o, name):
    return [e for e in o.st.trace if e.r[0] == "call" and e.r[1] == name]


def real(o):
    """the path can be taken: values that satisfy all it assumed"""
    a = t.add(t.add(t.add(W, H), t.add(PX, PY)), o.ctx.I.seqlen(PIXELS))
    return tell_apart(o, a, t.add(a, ONE))


def decode(ck, cfg, f):
    size = size_of(f, W, H)
    pics = []
    for full in (True, False) if size is not None else (True,):
        models = dict(MODELS)
        models["flate2::Decompress::decompress_vec"] = inflated(size, full)
        d = canvas(ck, cfg, f, models)
        label = "%s%s, %s" % (f, "" if size is None else ", all its bytes" if full else ", bytes missing", cfg)
        judge(ck, label, d, f, size, full, pics)
    return pics


def judge(ck, label, d, f, size, full, pics):
    outs = d.run()
    ck.funcs |= d.I.inlined
    unsure = None
    n = 0
    for o in outs:
        inf = events_of(o, "inflated")
        m = None
        if size is not None and not inf:
            continue
        if o.kind == "panic":
            if f in TILE or o.info[0][0] == "assert" and o.info[0][1] == "other":
                continue
            m = "panics at %s" % (o.info[0],)
        elif size is None:
            m = None if o.is_err() else "a format without a decoder is answered with %s" % sh(o.ret)
        elif full and o.is_err():
            m = "fails with %s" % sh(o.ret)
        elif not full and o.is_ok() and f not in TILE:
            m = "a canvas short of bytes is decoded"
        n += 1
        if m:
            k, why = real(o)
            if k == "differ":
                ck.bad(label, d.where(), "%s\n    %s\n    path: %s" % (m, why.rsplit(": ", 1)[0], o.pathdesc()))
                return
            unsure = "%s? %s" % (m, why)
            continue
        if full and size is not None and o.is_ok():
            data, cap, _ = inf[-1].r[2]
            if cap is None:
                unsure = "the bytes reserved for the canvas are not known"
                continue
            enough = t.le(minmax(o.st, "min", size, t.mulc(o.ctx.I.seqlen(data), 1032)), cap)
            if o.st.decide(enough) is not True:
                k, why = tell_apart(o, enough, TRUE)
                if k == "differ":
                    ck.bad(label, d.where(), "the reserved %s bytes are fewer than the canvas takes\n    %s" % (sh(cap), why))
                    return
                unsure = "the reserved bytes %s" % sh(cap)
                continue
            pics.append((o, o.okval()))
    if unsure:
        raise Undecided(unsure)
    if not n:
        if full and size is not None and outs and all(o.is_err() for o in outs):
            for o in outs:
                k, why = real(o)
                if k == "differ":
                    ck.bad(label, d.where(), "no canvas of this format is decoded: %s\n    %s" % (sh(o.ret), why.rsplit(": ", 1)[0]))
                    return
        raise Undecided("nothing is decoded")
    ck.ok(label, "%d paths" % n)


# ------------------------------------------------------------ the same picture in both builds
def same_picture(ck, f, a, b):
    label = "%s, both builds" % f
    if not a or not b:
        raise Undecided("not decoded in both builds")
    a, b = shortest(a), shortest(b)
    done = set()
    n = 0
    for o, x in a:
        for q, y in b:
            if x is y or (x, y) in done:
                continue
            done.add((x, y))
            try:
                m, k = pictures_differ(o, x, q, y)
            except Differs as e:
                m, k = str(e), 1
            n += k
            if m:
                ck.bad(label, o.ctx.where(), m)
                return
    ck.ok(label, "%d pairs of colours" % n if n else "identical")


def shortest(pics):
    """how the bytes were come by makes no difference to the decoder: the paths with the fewest loops before it"""

    def before(o):
        n = 0
        for e in o.st.trace:
            if e.r[0] == "call" and e.r[1] == "inflated":
                break
            n += e.r[0] == "loop"
        return n + 100 * len(events_of(o, "inflated"))

    m = min(before(o) for o, _ in pics)
    return [(o, v) for o, v in pics if before(o) == m]


def pictures_differ(o, x, q, y):
    p = by_block(o, x), by_block(q, y)
    unsure = None
    n = 0
    if set(p[0]) != set(p[1]):
        raise Undecided("pixels %s and %s of a block" % (sorted(p[0]), sorted(p[1])))
    for k in p[0]:
        for fa, ca in p[0][k]:
            for fb, cb in p[1][k]:
                s = State()
                if not all(s.assume(c, bool(v)) for c, v in list(fa) + list(fb)):
                    continue
                n += 1
                ca, cb = s.deep(ca), s.deep(cb)
                if same_colour(ca, cb):
                    continue
                for u, v, more in by_index(channels(ca, cb)):
                    if any(t.contains(z, lambda w: w.op == "phi") for z in (u, v)):
                        unsure = "a colour depends on how far a loop got: %s and %s" % (sh(u), sh(v))
                        continue
                    facts = [(c, w) for c, w in list(fa) + list(fb)] + more
                    try:
                        r = witness.differ(u, v, witness.relevant(facts, u, v))
                    except witness.Opaque as e:
                        unsure = "a part of a colour is not known: %s" % e
                        continue
                    if r is not None:
                        at = ", ".join("%s=%s" % z for z in list(r[0].items())[:8])
                        return "the pixel %s of a block is %s in the default and %s in the single-threaded build\n    for %s" % (k, r[1], r[2], at), n
                    unsure = "%s and %s" % (sh(u), sh(v))
    if unsure:
        raise Undecided(unsure)
    return None, n


def channels(a, b):
    while a.op == "agg" and b.op == "agg" and len(a.a[1]) == 1 and len(b.a[1]) == 1:
        a, b = a.a[1][0], b.a[1][0]
    if a.op == "agg" and b.op == "agg" and len(a.a[1]) == len(b.a[1]):
        return list(zip(a.a[1], b.a[1]))
    return [(a, b)]


def same_colour(a, b):
    return not any(True for _ in by_index(channels(a, b)))


def by_index(pairs, more=(), depth=3):
    """the pairs that are not equal, taken apart by the value of the indices into tables"""
    for a, b in pairs:
        if a is b:
            continue
        ix = [y.a[1] for z in (a, b) for y in t.atoms(z, lambda y: y.op == "elem" and y.a[0].op == "agg" and y.a[1].op != "int")]
        ix = [x for x in dict.fromkeys(ix) if t.rng(x)[0] >= 0 and t.rng(x)[1] < 16]
        if not ix or not depth:
            yield a, b, list(more)
            continue
        for v in range(t.rng(ix[0])[1] + 1):
            for x in by_index([(t.subst(a, {ix[0]: Int(v)}), t.subst(b, {ix[0]: Int(v)}))], tuple(more) + ((t.eq(ix[0], Int(v)), True),), depth - 1):
                yield x


def all_puts(trace, outer=()):
    """writes of single pixels, with the loops and iteration they happen in"""
    for e in trace:
        if e.r[0] == "loop":
            for b in e.r[1].backs:
                for x in all_puts(b.trace, outer + ((e.r[1], b),)):
                    yield x
        elif e.r[0] == "call" and e.r[1] == "put":
            yield outer, e.r[2]


BX, BY = u32s("block-x", "block-y")


def by_block(o, v):
    """{(i, j): [(facts, colour)]}: the pixel (i, j) of the block (BX, BY), blocks numbered row by row"""
    v = o.st.deep(v)
    img = list(t.atoms(v, lambda y: y.op.startswith("img") or y.op == "phi"))
    img = next((x for x in img if x.op in ("imgfn", "imgraw")), img[0] if img else None)
    if img is None:
        raise Undecided("the image is %s" % sh(v))
    if img.op == "imgraw":
        return {(0, 0): [([], img.a[2])]}
    if img.op == "imgfn" and not any(t.contains(val, lambda y: y.op == "blocks") for _, val in img.a[2]):
        return {(0, 0): list(img.a[2])}
    res = {}
    if img.op == "imgfn":
        for i in range(4):
            for j in range(4):
                m = {PX: t.add(t.mulc(BX, 4), Int(i)), PY: t.add(t.mulc(BY, 4), Int(j))}
                for facts, val in img.a[2]:
                    val = t.subst(val, m)
                    if val.op != "pixelof" or val.a[0].op != "elem" or val.a[0].a[0].op != "blocks":
                        raise Undecided("a pixel is %s" % sh(val))
                    at = {val.a[0].a[0].a[2]: val.a[0].a[1]}
                    for f2, b in val.a[0].a[0].a[1]:
                        c = pixel(b, val.a[1], val.a[2])
                        fs = [(t.subst(t.subst(c0, m), at), k) for c0, k in tuple(facts) + tuple(f2)]
                        res.setdefault((i, j), []).append((fs, t.subst(c, at)))
        return res
    puts = [p for p in all_puts(o.st.trace)]
    if not puts:
        raise Undecided("the image is %s" % sh(v))
    for outer, (x, y, val) in puts:
        m = {}
        small = []
        for term, big, size in ((x, BX, W), (y, BY, H)):
            c0, d = t.aslin(term)
            four = [a for a, k in d.items() if k == 4]
            one = [a for a, k in d.items() if k == 1]
            if c0 or len(d) != 2 or not four or not one or four[0].op != "phi" or one[0].op != "phi":
                raise Undecided("a pixel is written at %s, %s" % (sh(x), sh(y)))
            m[four[0]] = big
            small.append(one[0])
            covers(outer, four[0], t.div(t.add(size, Int(3)), Int(4)), o)
            covers(outer, one[0], minmax(State(), "min", Int(4), t.sub(size, t.mulc(four[0], 4))), o)
        b = outer[-1][1]
        for i in range(4):
            for j in range(4):
                mm = dict(m)
                mm[small[0]], mm[small[1]] = Int(i), Int(j)
                fs = [(t.subst(c0, mm), k) for c0, k in witness.path_facts(b)]
                if any(c0.op == "int" and bool(c0.a[0]) != bool(k) for c0, k in fs):
                    continue
                res.setdefault((i, j), []).append((fs, t.subst(val, mm)))
    return res


class Differs(Exception):
    pass


def covers(outer, phi, n, o):
    """the loop with this counter takes it through 0, 1, .. n - 1"""
    for d, (lp, b) in enumerate(outer):
        if phi not in lp.init:
            continue
        if lp.init[phi] is not ZERO or not all(same_in(x, s, t.add(phi, ONE)) for s, x in zip(lp.steps[phi], lp.backs)):
            raise Undecided("how %s goes on is not known" % sh(phi))
        # after the loop: the state the enclosing iteration ends in
        ends = [outer[d - 1][1]] if d else [o.st]
        for e in ends:
            if e.decide(t.le(n, phi)) is True:
                continue
            k, m = witness.compare(e, t.lt(phi, n), FALSE, phis=True)
            if k == "differ":
                raise Differs("pixels are left out: the counter of a loop ends before %s\n    %s" % (sh(n), m))
            raise Undecided("the loop of %s ends after %s?" % (sh(phi), sh(n)))
        return
    raise Undecided("no loop of %s" % sh(phi))
