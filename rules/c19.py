"""Encode, then decode what was encoded, on one symbolic run: `WzString::from_str` (and the pkg2
directory variant, and `encrypt_str` of a reader) is interpreted for an arbitrary text and key, and
`get_string` is interpreted on the value it returns. Key bytes are `stream(content of the
decryptor)[index]`, the same unknown for the same decryptor content and index; key growth and key
use are events. The decoded units must be, bit for bit (an exclusive-or normal form over unknown
bits), the units of the text, as many as the text has and decoded by the matching decoder; no path
may answer an error; every key byte used must have been generated before."""
from .lib import *
from .grammar import text_of

FLOOR = 2
W = "property::string::WzString"
ST = W + "Type"
R = "reader::WzBaseReader"
LIMIT = 1 << 29


def check(ck):
    ck.guard("WzString::from_str", made, ck, "from_str")
    if ck.has(W + "::from_str_pkg2_dir"):
        ck.guard("WzString::from_str_pkg2_dir", made, ck, "from_str_pkg2_dir")
    for k in ("Unicode", "Ascii", "Empty"):
        ck.guard("encrypt_str of a reader, %s" % k, direct, ck, k)


# ---- events of a decryptor -------------------------------------------------------------------
def kstate(c):
    return c.I.content(c.st, c.args[0])


def stream(c):
    return mk("call", "stream", (kstate(c),))


def byte(c, i):
    e = mk("elem", stream(c), i)
    t.settype(e, "u8")
    return e


def try_at(c):
    i = c.args[1]
    c.I.event(c.st, "use", (kstate(c), t.add(i, ONE)), c.span)
    return c.ret(t.some(mk("cref", byte(c, i))))


def ensure(c):
    c.I.event(c.st, "ensure", (kstate(c), c.args[1]), c.span)
    return c.ret(t.ok(UNIT))


def decrypt(c):
    seq = c.load(c.args[1])
    n = c.I.seqlen(seq)
    c.I.event(c.st, "use", (kstate(c), n), c.span)
    bv = mk("bv", 9000)
    t.settype(bv, "usize")
    c.storep(c.args[1], mk("tab", n, t.bitop("bxor", [c.I.elem(c.st, seq, bv), byte(c, bv)]), bv))
    return c.ret(UNIT)


def enough(c):
    v = mk("call", "key-enough", (kstate(c), c.args[1]))
    t.settype(v, "bool")
    return c.ret(v)


KEYS = {DECR + "try_at": try_at, DECR + "ensure_key_size": ensure, DECR + "decrypt_slice": decrypt, DECR + "is_enough": enough, "memmap2::MmapMut::make_read_only": lambda c: c.ret(t.ok(c.args[0]))}


def uncovered(o, tr=None, have=()):
    """a key byte used before it was generated: 'use(state, n)' needs an earlier 'ensure(state, m)'
    with n <= m on the path (or a true is_enough)"""
    have = list(have)
    for e in o.st.trace if tr is None else tr:
        if e.r[0] == "call" and e.r[1] == "ensure":
            have.append(e.r[2])
        elif e.r[0] == "call" and e.r[1] == "use":
            k, n = e.r[2]
            if not covered(o, k, n, have):
                return "key byte %s - 1 is used before the key was grown that far" % sh(n)
        elif e.r[0] == "loop":
            lp = e.r[1]
            for st in lp.backs:
                st = lockstep(lp, st)
                got = uncovered(Out(o.ctx, "ret", st, None), None, have)
                if got:
                    return got
    return None


def lockstep(lp, st):
    """counters of a loop that move by the same amount in every round move together"""
    ctr = [(phi, t.sub(lp.steps[phi][0], phi)) for phi in lp.steps if lp.steps[phi] and phi.op == "phi" and lp.init[phi].op in ("int", "lin") and all(s is lp.steps[phi][0] for s in lp.steps[phi])]
    ctr = [(p, d) for p, d in ctr if d.op == "int"]
    st = st.fork()
    for i in range(1, len(ctr)):
        for j in range(i):
            if ctr[i][1] is ctr[j][1]:
                st.assume(t.eq(t.sub(ctr[i][0], lp.init[ctr[i][0]]), t.sub(ctr[j][0], lp.init[ctr[j][0]])), True)
    return st


def covered(o, k, n, have):
    for k2, m in have:
        if k2 is k and o.st.decide(t.le(n, m)) is True:
            return True
    for f, (lo, hi) in o.st.bounds.items():
        if f.op == "call" and f.a[0] == "key-enough" and lo >= 1 and f.a[1][0] is k and o.st.decide(t.le(n, f.a[1][1])) is True:
            return True
    return False


# ---- bits -------------------------------------------------------------------------------------
def bit(x, k):
    """bit k of an integer term as a set of unknown bits (exclusive-or normal form; True is 1)"""
    if x.op == "int":
        return frozenset([True]) if (x.a[0] >> k) & 1 else frozenset()
    if x.op == "bxor":
        r = frozenset()
        for y in x.a:
            r = r ^ bit(y, k)
        return r
    if x.op == "wrap":
        b = int(x.a[1][1:]) if x.a[1][1:].isdigit() else 64
        if k < b:
            return bit(x.a[0], k)
        return frozenset() if x.a[1][0] == "u" else bit(x.a[0], b - 1)
    if x.op == "le" and k < 8 * x.a[0]:
        e = mk("elem", x.a[2], t.add(x.a[3], Int(k // 8)))
        t.settype(e, "u8")
        return bit(e, k % 8)
    lo, hi = t.rng(x)
    if lo >= 0 and hi != t.INF and k >= int(hi).bit_length():
        return frozenset()
    if x.op == "div" and x.a[1].op == "int" and lo >= 0 and t.rng(x.a[0])[0] >= 0:
        d = x.a[1].a[0]
        if d > 0 and d & (d - 1) == 0:
            return bit(x.a[0], k + d.bit_length() - 1)
    if x.op == "lin":
        c, d = t.aslin(x)
        parts = [t.mulc(y, n) for y, n in d.items()] + ([Int(c)] if c else [])
        rs = [t.bitrange(p) for p in parts]
        if all(r is not None for r in rs) and all(rs[i][1] <= rs[j][0] or rs[j][1] <= rs[i][0] for i in range(len(rs)) for j in range(i)) and len(parts) > 1:
            for p, (a, b) in zip(parts, rs):
                if a <= k < b:
                    return bit(p, k)
            return frozenset()
        if len(parts) == 1:
            (y, n), = d.items()
            if n > 0 and n & (n - 1) == 0:
                s = n.bit_length() - 1
                return bit(y, k - s) if k >= s else frozenset()
        m = 1 << (k + 1)
        x = t.fromlin(c % m, {y: n % m for y, n in d.items() if n % m})
        if x.op != "lin":
            return bit(x, k)
    return frozenset([(x, k)])


def units_of(o, text, kind):
    """(sequence of the text's units, their width in bits)"""
    return (text, 8) if kind.startswith("from_utf8") else (mk("seqof", "encode_utf16", text), 16)


def differ(o, got, want, msg):
    """a violation needs values at which the two really differ"""
    k, m = tell_apart(o, got, want)
    if k == "differ":
        return "%s\n    %s" % (msg, m)
    raise Undecided("%s (%s)" % (msg, m))


def assumptions(c, text):
    """texts up to half a GiB; a text of n bytes has between 1 (n > 0) and n UTF-16 units"""
    n = c.len(text)
    c.assume(t.le(n, Int(LIMIT)))


def utf16_facts(st, text):
    n, u = mk("len", text), mk("len", mk("seqof", "encode_utf16", text))
    return st.assume(t.le(u, n), True) and (st.decide(t.lt(ZERO, n)) is not True or st.assume(t.lt(ZERO, u), True)) and (st.decide(t.eq(n, ZERO)) is not True or st.assume(t.eq(u, ZERO), True))


def decoded(text):
    def f(o):
        if o.is_err():
            if any(t.contains(f, lambda y: y.op == "len" and t.contains(y, lambda z: z.op in ("phi", "unk"))) for f in list(o.st.bounds) + [o.st.deep(o.ret)]):
                raise Undecided("the encoded bytes are not known: %s" % sh(o.ret))
            return "decoding what was encoded fails with %s" % sh(o.ret)
        if not o.is_ok():
            return "the decoder answers %s" % sh(o.ret)
        v = o.okval()
        I = o.ctx.I
        late = uncovered(o)
        if late:
            return late
        if o.same(I.seqlen(v), ZERO):
            return None if o.st.decide(t.eq(mk("len", text), ZERO)) is True else "a text that is not empty decodes to the empty text"
        name, seq = text_of(v)
        if name is None:
            if seq is text or o.same(v, text):
                return None
            raise Undecided("decoded text is not recognised: %s" % sh(v))
        us, w = units_of(o, text, name)
        n = I.seqlen(us)
        got = I.seqlen(seq)
        if not o.same(got, n):
            return differ(o, got, n, "the text has %s units, %s are decoded (%s)" % (sh(n), sh(got), name))
        if o.same(n, ZERO):
            return None
        j = mk("sym", "unit-index", 0)
        t.settype(j, "usize")
        if not o.st.assume(t.lt(j, n), True):
            return None
        e, u = I.elem(o.st, seq, j), I.elem(o.st, us, j)
        t.settype(u, "u%d" % w)
        for k in range(w):
            a, b = bit(e, k), bit(u, k)
            if a != b:
                return differ(o, e, u, "unit j of the decoded text is not that of the text encoded: bit %d differs by %s (%s)" % (k, " ^ ".join("1" if x is True else "bit %d of %s" % (x[1], sh(x[0])) for x in sorted(a ^ b, key=str)), name))
        return None

    return f


class Verdict:
    """one obligation over every way to encode and decode"""

    def __init__(self, ck, label, where):
        self.ck, self.label, self.where = ck, label, where
        self.n, self.und, self.done = 0, None, False
        self.sample = None

    def bad(self, o, msg):
        if not self.done:
            self.ck.bad(self.label, self.where, "%s\n    path: %s" % (msg, o.pathdesc()))
        self.done = True

    def judge(self, o, f):
        if self.done:
            return
        self.n += 1
        try:
            m = f(o)
        except Undecided as e:
            self.und = e
            return
        if m:
            self.bad(o, m)
        elif self.sample is None:
            self.sample = o.show()

    def end(self):
        if self.done:
            return
        if self.und is not None:
            raise self.und
        if not self.n:
            raise Undecided("nothing encoded is decoded in the case '%s'" % self.label)
        self.ck.ok(self.label, self.sample)


def returning(ck, ctx):
    outs = ctx.run()
    ck.funcs |= ctx.I.inlined
    return [o for o in outs if o.kind == "ret"]


def made(ck, fn):
    """from_str / from_str_pkg2_dir, then get_string on the value"""
    c = ck.ctx(W + "::" + fn, opaque=KEYS)
    text = c.seq(c.a[0])
    assumptions(c, text)
    v = Verdict(ck, "%s then get_string" % fn, c.where())
    for o in returning(ck, c):
        if not utf16_facts(o.st, text):
            continue
        v.judge(o, uncovered)
        g = follow(ck, o, W + "::get_string", [(o.ret,)], opaque=KEYS)
        for q in returning(ck, g):
            v.judge(q, decoded(text))
    v.end()


def direct(ck, k):
    """encrypt_str of any reader; its bytes behind a reader with the same keys decode to the text"""
    c = ck.ctx(R + "::<T>::encrypt_str", opaque=KEYS)
    text = c.seq(c.a[1])
    assumptions(c, text)
    c.store(c.a[2], (), ck.mkenum(ST, k))
    me = c.seq(c.a[0])
    v = Verdict(ck, "encrypt_str, %s, then decode" % k, c.where())
    for o in returning(ck, c):
        if not utf16_facts(o.st, text):
            continue
        v.judge(o, uncovered)
        b = follow(ck, o, R + "::<memmap2::Mmap>::from_buff", [(o.ret,)], opaque=KEYS)
        for p in returning(ck, b):
            g = follow(ck, p, W + "::get_string", [None], opaque=KEYS)
            rdr = g.fld(g.a[0], ck.fi(W, "reader"))
            root, pth = g.I.target(rdr)
            g.I.store(g.st, root, pth, p.ret)
            g.I.store(g.st, root, pth + (("f", ck.fi(R, "keys")),), c.I.proj(p.st, me, ("f", ck.fi(R, "keys"))))
            g.store(g.a[0], (ck.fi(W, "offset"),), ZERO)
            g.store(g.a[0], (ck.fi(W, "length"),), g.I.seqlen(o.ret))
            g.store(g.a[0], (ck.fi(W, "string_type"),), ck.mkenum(ST, k))
            for q in returning(ck, g):
                if k == "Empty":
                    v.judge(q, lambda q: None if q.is_ok() and q.same(q.ctx.I.seqlen(q.okval()), ZERO) else "an empty string decodes to %s" % sh(q.ret))
                else:
                    v.judge(q, decoded(text))
    v.end()


RULE = __doc__
ASSUMPTIONS = ["texts up to 2^29 bytes", "a text of n > 0 bytes has between 1 and n UTF-16 units", "the standard UTF-16/UTF-8 conversions are inverse on valid text", "key bytes depend on the decryptor's content and the index only (C13)"]
