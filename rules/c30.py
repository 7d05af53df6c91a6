"""Published cipher: every table the cipher steps index is compared, entry by entry, with the
table computed from the definition of the AES S-box and of SNOW 2.0's field; the steps
themselves are interpreted on a symbolic key or state and each register's new value, and every
keystream word, must be the reference cipher's expression."""
from .lib import *

FLOOR = 60
P = "ms::snow2_decryptor::"
CX, D = P + "Snow2Context", P + "Snow2Decryptor"
W = "u32"


# ---------------------------------------------------------------- reference tables
def gf(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


def sbox():
    inv = [0] * 256
    for x in range(1, 256):
        for y in range(1, 256):
            if gf(x, y, 0x11B) == 1:
                inv[x] = y
                break
    res = []
    for x in range(256):
        b = inv[x]
        r = 0x63
        for k in range(5):
            r ^= ((b << k) | (b >> (8 - k))) & 0xFF
        res.append(r)
    return res


def tables():
    S = sbox()
    T0 = [(gf(2, s, 0x11B)) | s << 8 | s << 16 | gf(3, s, 0x11B) << 24 for s in S]
    rot = lambda v, k: ((v << k) | (v >> (32 - k))) & 0xFFFFFFFF
    T = [T0] + [[rot(v, 8 * k) for v in T0] for k in (1, 2, 3)]

    def power(e):
        r = 1
        for _ in range(e % 255):
            r = gf(r, 2, 0x1A9)
        return r

    def col(es):
        p = [power(e) for e in es]
        return [sum(gf(c, q, 0x1A9) << (24 - 8 * i) for i, q in enumerate(p)) for c in range(256)]

    return T, col((23, 245, 48, 239)), col((16, 39, 6, 64))


TT, MUL, INV = tables()


def table(xs):
    return t.array(tuple(Int(x) for x in xs))


class Ref:
    """the reference cipher over value terms"""

    def __init__(self, I, st, s, r1, r2):
        self.I, self.st, self.s, self.r1, self.r2 = I, st, list(s), r1, r2
        self.T = [table(x) for x in TT]
        self.M, self.V = table(MUL), table(INV)

    def at(self, tab, i):
        r = self.I.elem(self.st, tab, i)
        return t.settype(r, W) or r

    def byte(self, k, w):
        return t.wrap(t.div(w, Int(1 << (8 * k))) if k else w, "u8") if k < 3 else t.div(w, Int(1 << 24))

    def xor(self, *a):
        return t.bitop("bxor", list(a))

    def amul(self, w):
        return self.xor(t.wrap(t.mulc(w, 256), W), self.at(self.M, self.byte(3, w)))

    def ainv(self, w):
        return self.xor(t.div(w, Int(256)), self.at(self.V, self.byte(0, w)))

    def plus(self, a, b):
        return t.wrap(t.add(a, b), W)

    def fsm(self, i):
        """the new content of the two registers of the finite state machine"""
        r1 = self.plus(self.r2, self.s[(i + 5) % 16])
        r2 = self.xor(*[self.at(self.T[k], self.byte(k, self.r1)) for k in range(4)])
        self.r1, self.r2 = r1, r2

    def feedback(self, i, extra=()):
        s = self.s
        s[i] = self.xor(self.amul(s[i]), s[(i + 2) % 16], self.ainv(s[(i + 11) % 16]), *extra)

    def clock16(self):
        for i in range(16):
            f = self.xor(self.plus(self.r1, self.s[(i + 15) % 16]), self.r2)
            self.feedback(i, (f,))
            self.fsm(i)

    def words16(self):
        out = []
        for i in range(16):
            self.feedback(i)
            self.fsm(i)
            out.append(self.xor(self.plus(self.r1, self.s[i]), self.r2, self.s[(i + 1) % 16]))
        return out


def regs(ck):
    return [ck.fi(CX, "s%d" % i) for i in range(16)], ck.fi(CX, "r1"), ck.fi(CX, "r2"), ck.fi(CX, "keys")


def state_before(c, p, R):
    s, r1, r2, _ = R
    return Ref(c.I, c.st, [c.fld(p, i) for i in s], c.fld(p, r1), c.fld(p, r2))


def compare(ck, label, c, o, got, want):
    """one obligation per compared value"""
    key = "%s" % label
    try:
        m = want_eq(o, got, want, "the value")
    except Undecided as e:
        ck.unsure(key, str(e)[:600])
        return
    if m:
        ck.bad(key, c.where(), m[:1200])
    else:
        ck.ok(key)


def check_tables(ck, label, c, terms):
    """every table of 256 words these values look something up in is one of the published ones"""
    found = set()
    for x in terms:
        found |= set(t.atoms(x, lambda y: y.op == "agg" and y.a[0][0] == "array" and len(y.a[1]) == 256))
    names = [("T%d" % k, TT[k]) for k in range(4)] + [("alpha", MUL), ("inverse alpha", INV)]
    for x in sorted(found, key=lambda x: x.id):
        v = [e.a[0] if e.op == "int" else None for e in x.a[1]]
        n, best = max(((sum(a == b for a, b in zip(v, tab)), nm) for nm, tab in names))
        if n == 256:
            ck.ok("%s: table %s" % (label, best))
        elif n >= 128:
            tab = dict(names)[best]
            i = next(i for i in range(256) if v[i] != tab[i])
            ck.bad("%s: table %s" % (label, best), c.where(), "entry %d of the table is %s, the published one is 0x%08X" % (i, "0x%08X" % v[i] if v[i] is not None else sh(x.a[1][i]), tab[i]))
        else:
            ck.unsure("%s: table" % label, "an unknown table of 256 words is used")


def one(ck, c, what):
    outs = [o for o in c.run() if o.kind == "ret"]
    if len(outs) != 1:
        raise Undecided("%s has %d outcomes" % (what, len(outs)))
    return outs[0]


def clocking(ck):
    R = regs(ck)
    c = ck.ctx(CX + "::initial_clocking")
    ref = state_before(c, c.a[0], R)
    o = one(ck, c, "initial_clocking")
    ref.clock16()
    check_tables(ck, "initialisation", c, [o.fld(c.a[0], f) for f in R[0]] + [o.fld(c.a[0], R[2])])
    for i, f in enumerate(R[0]):
        compare(ck, "initialisation: register s%d" % i, c, o, o.fld(c.a[0], f), ref.s[i])
    compare(ck, "initialisation: R1", c, o, o.fld(c.a[0], R[1]), ref.r1)
    compare(ck, "initialisation: R2", c, o, o.fld(c.a[0], R[2]), ref.r2)


def keystream(ck):
    R = regs(ck)
    c = ck.ctx(CX + "::generate_keys")
    ref = state_before(c, c.a[0], R)
    o = one(ck, c, "generate_keys")
    out = ref.words16()
    ks = o.fld(c.a[0], R[3])
    for i, w in enumerate(out):
        compare(ck, "keystream word %d" % i, c, o, c.I.elem(o.st, ks, Int(i)), w)
    check_tables(ck, "keystream", c, [o.fld(c.a[0], f) for f in R[0]] + [o.fld(c.a[0], R[2])])
    for i, f in enumerate(R[0]):
        compare(ck, "keystream step: register s%d" % i, c, o, o.fld(c.a[0], f), ref.s[i])
    compare(ck, "keystream step: R1", c, o, o.fld(c.a[0], R[1]), ref.r1)
    compare(ck, "keystream step: R2", c, o, o.fld(c.a[0], R[2]), ref.r2)


def start(ck, fn, n, res_of):
    """the registers right after the key was loaded, with the clocking steps taken out"""
    R = regs(ck)

    def ev(name):
        def m(c):
            root, pth = c.I.target(c.args[0])
            c.I.event(c.st, name, tuple(c.I.load(c.st, root, pth + (("f", f),)) for f in list(R[0]) + [R[1], R[2]]), c.span)
            new = mk("call", name, (Int(len([e for e in c.st.trace if e.r[0] == "call"])),))
            for k, f in enumerate(list(R[0]) + [R[1], R[2], R[3]]):
                c.I.store(c.st, root, pth + (("f", f),), mk("fld", new, f))
            return c.ret(UNIT)

        return m

    c = ck.ctx(fn, opaque={CX + "::initial_clocking": ev("clock"), CX + "::generate_keys": ev("words")})
    key = c.a[0]
    o = one(ck, c, fn)
    evs = [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1] in ("clock", "words")]
    if [e[1] for e in evs] != ["clock", "clock", "words"]:
        ck.bad("key loading: order", c.where(), "the cipher is started with %s, expected 32 initial clockings and the first words" % ", ".join(e[1] for e in evs))
        return
    ck.ok("key loading: order")

    def kb(i):
        b = c.I.elem(c.st, key, Int(i))
        t.settype(b, "u8")
        return t.wrap(t.wrap(b, "i8"), W)

    def word(i):
        a, b, cc, d = (kb(4 * i + k) for k in range(4))
        return t.bitop("bor", [t.wrap(t.mulc(a, 1 << 24), W), t.wrap(t.mulc(b, 1 << 16), W), t.wrap(t.mulc(cc, 256), W), d])

    k = [word(i) for i in range(4)]
    inv = lambda x: t.bitop("bxor", [x, Int(0xFFFFFFFF)])
    want = {15: k[0], 14: k[1], 13: k[2], 12: k[3], 11: inv(k[0]), 10: inv(k[1]), 9: inv(k[2]), 8: inv(k[3]), 7: k[0], 6: k[1], 5: k[2], 4: k[3], 3: inv(k[0]), 2: inv(k[1]), 1: inv(k[2]), 0: inv(k[3])}
    for i in range(16):
        compare(ck, "key loading: register s%d" % i, c, o, evs[0][2][i], want[i])
    for i, nm in ((16, "R1"), (17, "R2")):
        compare(ck, "key loading: %s" % nm, c, o, evs[0][2][i], ZERO)
    ix, cx = ck.fi(D, "index"), ck.fi(D, "context")
    compare(ck, "key loading: first word used", c, o, c.I.proj(o.st, o.ret, ("f", ix)), ZERO)
    ks = c.I.proj(o.st, c.I.proj(o.st, o.ret, ("f", cx)), ("f", R[3]))
    ck.expect("key loading: words kept", ks.op == "fld" and ks.a[0].op == "call" and ks.a[0].a[0] == "words", c.where(), "the words used are %s, not those generated last" % sh(ks))


def block(ck):
    """one block uses the next word, and after the 16th word new ones are made"""
    R = regs(ck)
    ix, cx = ck.fi(D, "index"), ck.fi(D, "context")

    def ev(c):
        root, pth = c.I.target(c.args[0])
        c.I.event(c.st, "words", (), c.span)
        c.I.store(c.st, root, pth + (("f", R[3]),), mk("call", "new-words", ()))
        return c.ret(UNIT)

    for last in (False, True):
        block_at(ck, ev, R, ix, cx, last)


def block_at(ck, ev, R, ix, cx, last):
    c = ck.ctx(D + "::decrypt_block", opaque={CX + "::generate_keys": ev})
    i = c.fld(c.a[0], ix)
    t.settype(i, "usize")
    c.assume(t.le(ZERO, i), 1)
    c.assume(t.eq(i, Int(15)) if last else t.lt(i, Int(15)), 1)
    ks = c.fld(c.a[0], cx, R[3])
    d = c.seq(c.a[1])
    t.settype(d, W)
    k = c.I.elem(c.st, ks, i)
    t.settype(k, W)

    def f(o):
        new = [e for e in o.st.trace if e.r[0] == "call" and e.r[1] == "words"]
        after = o.fld(c.a[0], ix)
        m = want_eq(o, o.ret, t.wrap(t.sub(d, k), W), "the decrypted block")
        if m:
            return m
        if last:
            if len(new) != 1:
                return "after the last word new words are made %d times" % len(new)
            return want_eq(o, after, ZERO, "the next word used")
        if new:
            return "new words are made before all were used"
        return want_eq(o, after, t.add(i, ONE), "the next word used")

    ck.case("one block, %s" % ("the last word" if last else "further words"), c, f)


def slices(ck):
    """decrypt_slice: word by word, little endian"""
    def ev(c):
        v = c.load(c.args[1])
        r = mk("call", "block", (v, Int(len(c.st.trace))))
        t.settype(r, W)
        c.I.event(c.st, "block", (v, r), c.span)
        return c.ret(r)

    c = ck.ctx(D + "::decrypt_slice", opaque={D + "::decrypt_block": ev})
    data = c.a[1]
    n = c.len(data)
    seen = [0]

    def f(o):
        lps = [l for l in loops(o)]
        if len(lps) != 1:
            raise Undecided("%d loops" % len(lps))
        lp = lps[0]
        idx = [p for p in lp.init if lp.init[p] is ZERO and lp.steps[p] and all(same_in(b, s, t.add(p, ONE)) for s, b in zip(lp.steps[p], lp.backs))]
        off = [p for p in lp.init if lp.init[p] is ZERO and lp.steps[p] and all(same_in(b, s, t.add(p, Int(4))) for s, b in zip(lp.steps[p], lp.backs))]
        bufs = [p for p in lp.init if p not in idx and p not in off and unload(lp.init[p]) is unload(c.seq(data))]
        if len(bufs) != 1 or not (idx or off):
            raise Undecided("the loop over the data is not recognised")
        buf = bufs[0]
        at = t.mulc(idx[0], 4) if idx else off[0]
        for s, b in zip(lp.steps[buf], lp.backs):
            ev = [e.r for e in b.trace if e.r[0] == "call" and e.r[1] == "block"]
            if len(ev) != 1:
                return "%d blocks are decrypted per four bytes" % len(ev)
            src, res = ev[0][2]
            want = mk("le", 4, False, buf, at)
            want.ty = W
            if not b_equal(o, b, src, want):
                from absint import witness
                k, _ = witness.compare(b, b.deep(src), want)
                if k == "differ" or src.op in ("le", "be"):
                    return "the block taken is %s, expected the little-endian word %s" % (sh(src), sh(want))
                raise Undecided("the block taken is %s, expected the little-endian word %s" % (sh(src), sh(want)))
            for k in range(4):
                e = c.I.elem(b, s, t.add(at, Int(k)))
                w = t.wrap(t.div(res, Int(1 << (8 * k))), "u8") if k < 3 else t.div(res, Int(1 << 24))
                if not b_equal(o, b, e, w):
                    return "byte %d of a decrypted block is %s, expected %s" % (k, sh(e), sh(w))
        seen[0] += 1

    ck.case("a slice", c, f)
    if not seen[0]:
        raise Undecided("no loop over the data found")


def b_equal(o, b, x, y):
    return same_in(b, x, y)


def unload(x):
    while x.op in ("at", "val") and isinstance(x.a[0], t.T):
        x = x.a[0]
    return x


def aeskey(ck, fn):
    c = ck.ctx(E + "::" + fn)

    def f(o):
        k = c.I.proj(o.st, o.ret, ("f", ck.fi(E, "aes_key")))
        for i in range(32):
            v = o.st.simp(c.I.elem(o.st, k, Int(i)))
            w = Int(USER[i // 4] if i % 4 == 0 else 0)
            if v is not w:
                if v.op == "int":
                    return "byte %d of the AES key is %d, expected %d" % (i, v.a[0], w.a[0])
                raise Undecided("byte %d of the AES key is %s" % (i, sh(v)))

    ck.case("AES key: " + fn, c, f)


E = "util::string_decryptor::ecb_decryptor::EcbDecryptor"
USER = [0x13, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52]

def check(ck):
    ck.guard("initialisation", clocking, ck)
    ck.guard("keystream", keystream, ck)
    ck.guard("key loading", start, ck, D + "::new", 2, None)
    ck.guard("block", block, ck)
    ck.guard("slice", slices, ck)
    for fn in ("from_iv", "new_lua"):
        ck.guard("AES key: " + fn, aeskey, ck, fn)
