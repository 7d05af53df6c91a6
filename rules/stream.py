"""The readers of pack files hand out the decrypted stream in order, however the reads are cut: a
reader is made and used for a sequence of reads by interpretation, the cipher being a function of
the number of blocks it has decrypted; every byte delivered must be the next one of the stream."""
from .lib import *
from . import c34

S, H = "ms::snow2_reader::Snow2Reader", "ms::chacha20_reader::ChaCha20Reader"
D = "ms::snow2_decryptor::Snow2Decryptor"
SIZES = {"read_i32": 4, "read_u32": 4}


def typed(x, ty):
    t.settype(x, ty)
    return x


def array(name, n):
    return t.array(tuple(typed(mk("sym", name, i), "u8") for i in range(n)))


# ------------------------------------------------------------ the ciphers
def count(st, new=None):
    if new is not None:
        st.cnt["stream"] = new
    return st.cnt.get("stream", 0)


def plain(n, x):
    return typed(mk("call", "plain", (Int(n), x)), "u32")


def snow_ops():
    def block(c):
        n = count(c.st)
        count(c.st, n + 1)
        return c.ret(plain(n, bare(c.I.content(c.st, c.args[1]))))

    return {D + "::new": lambda c: c.ret(mk("call", "snow", (bare(c.I.content(c.st, c.args[0])),))), D + "::decrypt_block": block}


def mixed(n, k, x):
    return typed(mk("call", "mixed", (Int(n), Int(k), x)), "u8")


def chacha_ops():
    def apply(c):
        root, pth = c.I.target(c.args[1])
        seq = c.I.load(c.st, root, pth)
        n = c.st.simp(c.I.seqlen(seq))
        if n.op != "int" or n.a[0] != 64:
            raise Undecided("%s bytes are decrypted at once" % sh(n))
        k = count(c.st)
        count(c.st, k + 1)
        c.I.store(c.st, root, pth, t.array(tuple(mixed(k, i, c.st.simp(c.I.elem(c.st, seq, Int(i)))) for i in range(64))))
        return c.ret(UNIT)

    def param(c):
        if [c.st.simp(a) for a in c.args[1:]] != [ZERO, ZERO]:
            raise Undecided("the cipher is set to %s" % ", ".join(sh(a) for a in c.args[1:]))
        count(c.st, 0)
        return c.ret(UNIT)

    return {
        "c2_chacha::stream_cipher::NewStreamCipher::new_var": lambda c: c.ret(t.ok(mk("call", "chacha", tuple(bare(c.I.content(c.st, a)) for a in c.args)))),
        "c2_chacha::stream_cipher::SyncStreamCipher::apply_keystream": apply,
        "c2_chacha::guts::ChaCha::set_stream_param": param,
    }


class Stream:
    """the bytes a reader has to deliver"""

    def __init__(self, I, st, data, off):
        self.I, self.st, self.data, self.off = I, st, data, off
        self.pos = 0

    def take(self, n):
        r = [self.byte(k) for k in range(self.pos, self.pos + n)]
        self.pos += n
        return r


class Snow(Stream):
    def byte(self, k):
        return t.wrap(t.div(self.word(k), Int(256 ** (k % 4))), "u8")

    def word(self, k):
        return plain(k // 4, mk("le", 4, False, self.data, t.add(self.off, Int(k // 4 * 4))))


class ChaCha(Stream):
    """64 bytes at a time; a read that ends with such a chunk starts the key stream afresh"""

    block = 0
    started = 0

    def take(self, n):
        r = []
        for k in range(self.pos, self.pos + n):
            if k % 64 == 0:
                self.block = self.started
                self.started += 1
            r.append(mixed(self.block, k % 64, typed(mk("elem", self.data, t.add(self.off, Int(k))), "u8")))
        self.pos += n
        if n and self.pos % 64 == 0:
            self.started = 0
        return r


def same(st, got, want):
    if same_in(st, got, want):
        return True
    got, want = st.deep(got), st.deep(want)
    while got.op == "wrap" and want.op == "wrap" and got.a[1] == want.a[1]:
        got, want = got.a[0], want.a[0]
    r = c34.compare([], c34.form(got), c34.form(want))
    if r == "?":
        raise Undecided("%s, expected %s" % (sh(got), sh(want)))
    return r is None


def session(ck, R, ops, spec, steps):
    """None, or what is delivered wrongly. steps: [(operation, size)]"""
    path = R + "::<'a>::"
    c = ck.ctx(path + "new", opaque=ops)
    data = c.seq(c.a[0])
    off = typed(mk("sym", "offset"), "usize")
    c.assume(t.le(t.add(off, Int(1 << 14)), c.I.seqlen(data)))
    o = only(c)
    fo = ck.fi(R, "offset")
    reader = o.ret
    s = spec(c.I, o.st, data, off)
    first = True
    done = []
    for name, n in steps:
        done.append("%s(%s)" % (name, n) if name not in SIZES else name)
        c = follow(ck, o, path + name, [(reader,)], ops)
        if first:
            c.store(c.a[0], (fo,), off)
            first = False
        if name == "write_bytes_to":
            c.a[2] = Int(n)
            c.store(c.a[1], (), array("dest", n))
        elif name not in SIZES:
            c.a[1] = Int(n)
        o = only(c)
        ck.funcs |= c.I.inlined
        if not o.is_ok():
            return "after %s, %s gives %s" % (", ".join(done[:-1]) or "nothing", done[-1], o.show())
        want = s.take(n)
        if name in SIZES:
            v = ZERO
            for k, b in enumerate(want):
                v = t.add(v, t.mulc(b, 256**k))
            pairs = [("the number", o.okval(), t.wrap(v, name[5:]))]
        else:
            seq = o.fld(c.a[1]) if name == "write_bytes_to" else bare(o.content(o.okval()))
            m = o.st.simp(c.I.seqlen(seq))
            if m.op != "int":
                raise Undecided("%s bytes" % sh(m))
            if m.a[0] != n:
                return "after %s, %s gives %d bytes" % (", ".join(done[:-1]) or "nothing", done[-1], m.a[0])
            pairs = [("byte %d" % k, c.I.elem(o.st, seq, Int(k)), b) for k, b in enumerate(want)]
        for what, g, w in pairs:
            if not same(o.st, g, w):
                return "after %s, %s of %s is %s, expected %s" % (", ".join(done[:-1]) or "nothing", what, done[-1], sh(o.st.deep(g))[:300], sh(w)[:300])
        reader = o.fld(c.a[0])
    return None


def only(c):
    outs = [o for o in c.run() if o.kind == "ret"]
    if len(outs) != 1:
        raise Undecided("%s has %d outcomes" % (c.body.path, len(outs)))
    if loops(outs[0]):
        raise Undecided("a loop of %s" % c.body.path)
    return outs[0]


def check(ck):
    ck.guard("snow reader", deliver, ck, S, snow_ops(), Snow, (0, 2, 4, 6), (0, 2, 4, 6, 8, 10, 16))
    ck.guard("chacha reader", deliver, ck, H, chacha_ops(), ChaCha, (0, 4, 30, 58, 60, 62, 64, 66), (2, 4, 6, 16, 64, 70))


def deliver(ck, R, ops, spec, before, sizes):
    n = 0
    for b in before:
        for name, k in [("read_i32", 4)] + [("read_bytes", k) for k in sizes] + [("write_bytes_to", k) for k in (2, 16)]:
            steps = ([("read_bytes", b)] if b else []) + [(name, k), ("read_i32", 4), ("read_bytes", 6)]
            m = session(ck, R, ops, spec, steps)
            n += 1
            if m:
                ck.bad("bytes delivered by %s" % R, R, m)
                return
    ck.ok("bytes delivered by %s" % R, "%d sequences of reads" % n)
