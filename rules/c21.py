"""Sounds. A sound made by the public constructor over a file of symbolic content is asked for its
buffer, written to a stream and saved. The bytes of each (the returned buffer, or the bytes handed
to the stream one after the other) are compared, byte by byte for the header and at a symbolic
position for the sound, with the stored range and, for PCM, the header made from the stored one;
a failing write is answered with an error. The kind of a sound is read off its stored header."""
from .lib import *
from .c16 import unload

FLOOR = 10
P = "property::sound::WzSound"
KT = "property::sound::WzSoundType"
HEAD = 0x46
OFF, LEN, HOFF, HLEN, DUR, AT = (mk("sym", n, 0) for n in ("offset", "length", "header-offset", "header-size", "duration", "k"))
for s, ty in ((OFF, "usize"), (LEN, "u32"), (HOFF, "usize"), (HLEN, "usize"), (DUR, "u32"), (AT, "usize")):
    t.settype(s, ty)


def check(ck):
    for kind in ("Mp3", "Wav", "Binary"):
        ck.guard("buffer, %s" % kind, buffer, ck, kind)
        ck.guard("stream, %s" % kind, stream, ck, kind, "write_to")
        ck.guard("save, %s" % kind, stream, ck, kind, "save")
    ck.guard("kind of a sound", kinds, ck)


def sound(ck, kind, method, *args, **kw):
    file = mk("sym", "file", 0)

    def slice_of(c):
        """the bytes of a range of the file"""
        rng = c.I.content(c.st, c.args[1])
        a, b = (c.I.proj(c.st, rng, ("f", i)) for i in (0, 1))
        c.I.event(c.st, "slice", (file, a, b), c.span)
        return c.ret(mk("cref", c.I.subseq(c.st, file, a, t.sub(b, a))))

    c = ck.ctx(P + "::new", args=[None, OFF, LEN, HOFF, HLEN, DUR, ck.mkenum(KT, kind)])
    n = c.len(file)
    c.assume(t.le(t.add(OFF, LEN), n))
    c.assume(t.le(t.add(HOFF, HLEN), n))
    c.assume(t.le(n, Int(1 << 47)))
    c.assume(t.eq(HLEN, Int(HEAD)) if kind == "Wav" else t.le(ZERO, HLEN))
    c.assume(t.lt(AT, LEN))
    made = [o for o in c.run() if o.kind == "ret"]
    if len(made) != 1:
        raise Undecided("the constructor has %d outcomes" % len(made))
    models = {"reader::WzBaseReader::<T>::get_slice": slice_of}
    models.update(kw.get("models", {}))
    d = follow(ck, made[0], P + "::" + method, [(made[0].ret,)] + list(args), models)
    return d, file


def expected(o, file, kind):
    """[(what, position, byte)], length"""
    I, st = o.ctx.I, o.st
    head = []

    def at(p):
        v = I.elem(st, file, p)
        t.settype(v, "u8")
        return v

    if kind == "Wav":
        num = lambda v: [t.wrap(t.div(v, Int(1 << (8 * i))), "u8") for i in range(4)]
        txt = lambda s: [Int(ord(x)) for x in s]
        head = txt("RIFF") + num(t.wrap(t.add(LEN, Int(36)), "u32")) + txt("WAVEfmt ") + [Int(16), ZERO, ZERO, ZERO]
        head += [at(t.add(HOFF, Int(0x34 + i))) for i in range(16)] + txt("data") + num(LEN)
    res = [("header byte %d" % i, Int(i), v) for i, v in enumerate(head)]
    res.append(("byte k of the sound", t.add(Int(len(head)), AT), at(t.add(OFF, AT))))
    return res, t.add(Int(len(head)), LEN)


def judge(o, parts, file, kind):
    I, st = o.ctx.I, o.st
    want, length = expected(o, file, kind)
    total = ZERO
    for p in parts:
        total = t.add(total, I.seqlen(p))
    m = want_eq(o, total, length, "the number of bytes")
    if m:
        return m
    unsure = None
    for what, at, v in want:
        try:
            m = want_eq(o, byte(o, parts, at), v, what)
        except Undecided as e:
            unsure = unsure or e
            continue
        if m:
            return m
    if unsure:
        raise unsure
    return None


def byte(o, parts, at):
    base = ZERO
    for p in parts:
        n = o.ctx.I.seqlen(p)
        end = t.add(base, n)
        inside = o.st.decide(t.lt(at, end))
        if inside is None:
            raise Undecided("which write has the byte at %s" % sh(at))
        if inside:
            return o.st.deep(o.ctx.I.elem(o.st, p, t.sub(at, base)))
        base = end
    raise Undecided("no byte at %s" % sh(at))


def buffer(ck, kind):
    c, file = sound(ck, kind, "get_buffer")

    def f(o):
        return judge(o, [o.content(o.ret)], file, kind)

    ck.case("buffer, %s" % kind, c, f)


def stream(ck, kind, method):
    dest = mk("sym", "stream" if method == "write_to" else "path", 0)

    def write_all(c):
        bad = c.st.fork()
        for st, ok in ((c.st, TRUE), (bad, FALSE)):
            c.I.event(st, "written", (c.args[0], c.I.content(st, c.args[1]), ok), c.span)
        return [("ret", c.st, t.ok(t.tuple_())), ("ret", bad, t.err(mk("sym", "write-error", 0)))]

    def create(c):
        bad = c.st.fork()
        c.I.event(c.st, "created", (c.I.content(c.st, c.args[0]),), c.span)
        return [("ret", c.st, t.ok(mk("sym", "file-handle", 0))), ("ret", bad, t.err(mk("sym", "create-error", 0)))]

    models = {"std::io::Write::write_all": write_all, "<std::fs::File as std::io::Write>::write_all": write_all, "std::fs::File::create": create}
    if method == "write_to":
        c, file = sound(ck, kind, method, (dest,), models=models)
    else:
        c, file = sound(ck, kind, method, dest, models=models)

    def f(o):
        written = events(o, "written")
        failed = any(e[2][2] is FALSE for e in written)
        if o.is_err():
            if failed or t.contains(o.ret, lambda y: y.op == "sym" and y.a[0] == "create-error" or y.op == "ev" or y.op == "call"):
                return None
            k, why = tell_apart(o, AT, t.add(AT, ONE))
            if k == "differ":
                return "answers an error though nothing failed: %s" % sh(o.ret)
            raise Undecided("answers %s" % sh(o.ret))
        if not o.is_ok():
            raise Undecided("answers %s" % sh(o.ret))
        if failed:
            return shown(o, FALSE, "a failed write is answered with success")
        if loops(o):
            raise Undecided("bytes are written by a loop")
        made = events(o, "created")
        if method == "save" and len(made) != 1:
            return "%d files are created" % len(made)
        return judge(o, [unload(e[2][1]) for e in written], file, kind)

    ck.case("%s, %s" % ("stream" if method == "write_to" else "save", kind), c, f)


def kinds(ck):
    c = ck.ctx("property::sound::get_sound_type_from_header")
    head = c.seq(c.a[0])
    n = c.len(head)
    size, dur = c.a[1], c.a[2]
    seen = set()

    def f(o):
        k = o.ret.a[0][3] if o.ret.op == "agg" and o.ret.a[0][1] == KT else None
        if k is None:
            raise Undecided("answers %s" % sh(o.ret))
        seen.add(k)
        pcm = t.eq(n, Int(HEAD))
        if k == "Mp3":
            return shown(o, t.not_(pcm), "a sound with the header of PCM is taken for MP3")
        m = shown(o, pcm, "a sound without the header of PCM is taken for %s" % k)
        if m:
            return m
        rate = mk("le", 4, False, head, Int(0x38))
        raw = t.and_(t.eq(rate, size), t.eq(dur, Int(1000)))
        return shown(o, raw if k == "Binary" else t.not_(raw), "a sound with the header of PCM is taken for %s" % k)

    ck.case("kind of a sound", c, f)
    for k in ("Mp3", "Wav", "Binary"):
        ck.expect("kind %s" % k, k in seen, c.where(), "no sound is of the kind %s" % k)
