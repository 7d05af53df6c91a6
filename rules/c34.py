"""Canvas colours. The pixel function of every format - a term over the position and the inflated
bytes, taken from the decoder by interpretation as for the format table - is compared channel by
channel with the layout the format publishes. Both are brought to linear forms over the single bits
of the bytes (with the divisions by three, five and seven of block formats as parts), which makes
expressions of the same bits equal whatever operations they are written with; a difference needs
bytes that give another colour."""
import random

from .lib import *
from .images import *
from . import c20
from .c20 import BX, BY, H, PIXELS, W

FLOOR = 12
FORMATS = ("BGRA4444", "BGRA8888", "ARGB1555", "RGB565", "R16", "RGBA1010102", "DXT3", "DXT3SM", "DXT5", "BC7")
ASSUMPTIONS = ["the block decoder of BC7 is the library's", "the colours of the tiled RGB565 are not examined"]


def check(ck):
    for cfg in c20.CFGS:
        for f in FORMATS:
            ck.guard("%s, %s" % (f, cfg), one, ck, cfg, f)


# ------------------------------------------------------------ linear forms over bits
class L:
    """c + sum of coefficient * bit; bits are named by tuples, ("op", ...) names any other number"""

    __slots__ = ("c", "d", "k")

    def __init__(self, c=0, d=None):
        self.c = c
        self.d = {k: v for k, v in (d or {}).items() if v}
        self.k = None

    def key(self):
        if self.k is None:
            self.k = (self.c, tuple(sorted(self.d.items(), key=repr)))
        return self.k

    def plus(self, o, k=1):
        d = dict(self.d)
        for b, v in o.d.items():
            d[b] = d.get(b, 0) + k * v
        return L(self.c + k * o.c, d)

    def times(self, k):
        return L(self.c * k, {b: v * k for b, v in self.d.items()})

    def span(self):
        lo = hi = self.c
        for b, v in self.d.items():
            m = top(b)
            lo += min(0, v * m)
            hi += max(0, v * m)
        return lo, hi

    def bits(self):
        """{place: bit}, or None when this is more than bits in places"""
        r = {}
        if self.c < 0:
            return None
        for i in range(self.c.bit_length()):
            if self.c >> i & 1:
                r[i] = 1
        for b, v in self.d.items():
            p = v.bit_length() - 1
            if b[0] == "op" or v <= 0 or v & (v - 1) or p in r:
                return None
            r[p] = b
        return r

    def run(self, env):
        return self.c + sum(v * value(b, env) for b, v in self.d.items())

    def put(self, known):
        """with the bits that are known"""
        if not known:
            return self
        r = L(self.c)
        for b, v in self.d.items():
            if b in known:
                r = r.plus(L(known[b]), v)
            elif b[0] == "op":
                r = r.plus(op(b[1], OPS[b][0].put(known), OPS[b][1]), v)
            elif b[0] == "gate":
                r = r.plus(gate(b[1], *(known_bit(u, known) for u in b[2:])), v)
            else:
                r = r.plus(L(0, {b: 1}), v)
        return r

    def free(self, out):
        for b in self.d:
            if b[0] == "op":
                OPS[b][0].free(out)
            elif b[0] == "gate":
                for u in b[2:]:
                    L(0, {u: 1}).free(out)
            else:
                out.add(b)
        return out


OPS = {}


def known_bit(b, known):
    """a bit as 0, 1 or a bit"""
    x = L(0, {b: 1}).put(known)
    if x.d and (x.c or list(x.d.values()) != [1]):
        raise Undecided("a bit turned over")
    return x.c if not x.d else next(iter(x.d))


def gate(kind, u, v):
    """two bits that meet in one place"""
    if isinstance(v, int):
        u, v = v, u
    if isinstance(u, int):
        if kind == "bxor" and u:
            return L(1).plus(bit(v), -1)
        return bit(v) if u == (kind == "band") else L(u)
    if u == v:
        return L(0) if kind == "bxor" else bit(u)
    return L(0, {("gate", kind) + tuple(sorted((u, v), key=repr)): 1})


def bit(b):
    return L(b) if isinstance(b, int) else L(0, {b: 1})


def value(b, env):
    if b[0] == "gate":
        u, v = (value(x, env) for x in b[2:])
        return u & v if b[1] == "band" else u | v if b[1] == "bor" else u ^ v
    if b[0] != "op":
        return env[b]
    x, n = OPS[b]
    v = x.run(env)
    if b[1] == "div":
        return abs(v) // n * (1 if v >= 0 else -1)
    if b[1] == "rem":
        return abs(v) % n * (1 if v >= 0 else -1)
    return v & n if b[1] == "band" else v % n


def top(b):
    if b[0] != "op":
        return 1
    x, n = OPS[b]
    return {"div": max(x.span()[1], 0) // n, "rem": n - 1, "band": n, "mod": n - 1}[b[1]]


def place(bits):
    r = L()
    for p, b in bits.items():
        r = r.plus(L(1) if b == 1 else L(0, {b: 1}), 1 << p)
    return r


def op(name, x, n):
    """division and so on of a form by a number"""
    if not x.d:
        return L(value2(name, x.c, n))
    s = x.bits()
    if s is not None:
        if name == "band":
            return place({p: b for p, b in s.items() if n >> p & 1})
        if n & (n - 1) == 0:
            k = n.bit_length() - 1
            if name == "div":
                return place({p - k: b for p, b in s.items() if p >= k})
            return place({p: b for p, b in s.items() if p < k})
    lo, hi = x.span()
    if name in ("rem", "mod") and 0 <= lo and hi < n:
        return x
    if name == "mod" and n & (n - 1) == 0 and lo < 0:
        pass
    b = ("op", name, x.key(), n)
    OPS[b] = (x, n)
    return L(0, {b: 1})


def value2(name, v, n):
    if name == "div":
        return abs(v) // n * (1 if v >= 0 else -1)
    if name == "rem":
        return abs(v) % n * (1 if v >= 0 else -1)
    return v & n if name == "band" else v % n


def byte(seq, pos):
    return L(0, {("byte", seq.id, pos.id, k): 1 << k for k in range(8)})


NAMES = {}


def combine(o, u, v):
    x = gate(o, u, v)
    if not x.d:
        return x.c
    if x.c or list(x.d.values()) != [1]:
        raise Undecided("a bit turned over")
    return next(iter(x.d))


def form(x):
    o, a = x.op, x.a
    if o == "int":
        return L(a[0])
    if o == "lin":
        r = L(a[0])
        for y, k in a[1]:
            r = r.plus(form(y), k)
        return r
    if o == "le" and not a[1]:
        r = L()
        for j in range(a[0]):
            p = t.add(a[3], Int(j))
            NAMES["byte", a[2].id, p.id] = (a[2], p)
            r = r.plus(byte(a[2], p), 1 << 8 * j)
        return r
    if o == "elem" and x.ty == "u8":
        NAMES["byte", a[0].id, a[1].id] = (a[0], a[1])
        return byte(a[0], a[1])
    if o in ("elem", "call") and x.ty in ("u8", "u16", "u32"):
        NAMES["num", x.id] = x
        return L(0, {("num", x.id, k): 1 << k for k in range(int(x.ty[1:]))})
    if o in ("div", "rem") and a[1].op == "int" and a[1].a[0] > 0:
        return op(o, form(a[0]), a[1].a[0])
    if o == "wrap":
        r = form(a[0])
        lo, hi = t.INTTY[a[1]]
        s = r.span()
        if lo <= s[0] and s[1] <= hi:
            return r
        if lo == 0:
            return op("mod", r, hi + 1)
    if o in ("band", "bor", "bxor"):
        ns = [y.a[0] for y in a if y.op == "int"]
        r = [form(y) for y in a if y.op != "int"]
        if o == "band" and len(ns) == 1 and len(r) == 1 and ns[0] >= 0:
            return op("band", r[0], ns[0])
        s = [y.bits() for y in r + [L(n) for n in ns]]
        if all(y is not None for y in s):
            m = s[0]
            for y in s[1:]:
                m = {p: combine(o, m.get(p, 0), y.get(p, 0)) for p in set(m) | set(y)}
                m = {p: b for p, b in m.items() if b != 0}
            return place(m)
    if o == "shr" and a[1].op == "int":
        return op("div", form(a[0]), 1 << a[1].a[0])
    if o == "ite":
        raise Undecided("a choice inside a colour: %s" % sh(x))
    raise Undecided("a part of a colour: %s" % sh(x))


def fact(c, v):
    """[("eq" | "ne" | "lt", form)]: what c being v says"""
    if c.op == "not":
        return fact(c.a[0], not v)
    if c.op == "and" and v:
        return fact(c.a[0], True) + fact(c.a[1], True)
    if c.op == "or" and not v:
        return fact(c.a[0], False) + fact(c.a[1], False)
    if c.op == "eq0":
        return [("eq" if v else "ne", form(c.a[0]))]
    if c.op == "lt0":
        x = form(c.a[0])
        return [("lt", x if v else L(-1).plus(x, -1))]
    if c.op == "int":
        return [] if bool(c.a[0]) == bool(v) else [("lt", L(0))]
    raise Undecided("a condition of a colour: %s" % sh(c))


def settle(facts):
    """(bits known, other facts); None when they contradict each other"""
    known, rest = {}, list(facts)
    again = True
    while again:
        again = False
        old, rest = rest, []
        for k, x in old:
            x = x.put(known)
            if not x.d:
                if not (x.c == 0 if k == "eq" else x.c != 0 if k == "ne" else x.c < 0):
                    return None
                continue
            if k == "eq":
                # bits in places equal to a number
                for y in (L(-x.c, x.d), L(x.c, {b: -v for b, v in x.d.items()})):
                    s = L(0, {b: v for b, v in (x.d if y.c == -x.c else y.d).items()}).bits()
                    if s is None or any(b != 1 and b[0] == "gate" for b in s.values()):
                        continue
                    n = y.c
                    if n < 0 or any(n >> p & 1 and p not in s for p in range(n.bit_length())):
                        return None
                    for p, b in s.items():
                        known[b] = n >> p & 1
                    again = True
                    break
                else:
                    rest.append((k, x))
                continue
            rest.append((k, x))
    lts = [x for k, x in rest if k == "lt"]
    for i, x in enumerate(lts):
        for y in lts[i + 1 :]:
            s = x.plus(y)
            if not s.d and s.c >= -1:
                return None
    return known, rest


def compare(facts, got, want):
    """None when equal wherever the facts hold, "?" when not known, else the values that differ"""
    r = settle(facts)
    if r is None:
        return None
    known, rest = r
    a, b = got.put(known), want.put(known)
    if a.key() == b.key():
        return None
    k = (tuple((n, x.key()) for n, x in rest), a.key(), b.key())
    if k not in MEMO:
        MEMO[k] = search(rest, a, b)
    m = MEMO[k]
    if isinstance(m, tuple):
        env = dict(m[0])
        env.update(known)
        return describe(env, m[1], m[2])
    return m


MEMO = {}


def search(rest, a, b):
    vs = a.free(b.free(set()))
    for _, x in rest:
        x.free(vs)
    vs = sorted(vs, key=repr)
    whole = len(vs) <= 14
    rnd = random.Random(7)
    for i in range(1 << len(vs) if whole else 6000):
        if whole:
            env = {v: i >> n & 1 for n, v in enumerate(vs)}
        else:
            w = (0.5, 0.1, 0.9, 0.3)[i % 4]
            env = {v: int(rnd.random() < w) for v in vs}
        if all((x.run(env) == 0) if k == "eq" else (x.run(env) != 0) if k == "ne" else x.run(env) < 0 for k, x in rest):
            p, q = a.run(env), b.run(env)
            if p != q:
                return env, p, q
    return None if whole else "?"


def describe(env, p, q):
    num = {}
    for b, v in env.items():
        num.setdefault(b[:-1], 0)
        num[b[:-1]] += v << b[-1]
    at = []
    for n in sorted(num, key=repr):
        x = NAMES[n]
        at.append("%s = %d" % (sh(mk("elem", *x)) if isinstance(x, tuple) else sh(x)[:60], num[n]))
    return "%s instead of %s for %s" % (p, q, ", ".join(at[:8]))


# ------------------------------------------------------------ the published layouts
def at(pos, j=0):
    p = t.add(pos, Int(j))
    NAMES["byte", PIXELS.id, p.id] = (PIXELS, p)
    return byte(PIXELS, p)


def word(pos, j, n):
    r = L()
    for i in range(n):
        r = r.plus(at(pos, j + i), 1 << 8 * i)
    return r


def field(x, lo, n):
    return op("rem", op("div", x, 1 << lo), 1 << n)


def five(x):
    return x.times(8).plus(op("div", x, 4))


def six(x):
    return x.times(4).plus(op("div", x, 16))


def rgb565(w):
    return [five(field(w, 11, 5)), six(field(w, 5, 6)), five(field(w, 0, 5))]


ALWAYS = []


def spec(f, i, j):
    """per channel: [(facts, form)], the facts covering everything"""
    if f in c20.PIXEL:
        pos = t.mulc(t.add(PX, t.mul(PY, W)), c20.PIXEL[f])
    else:
        pos = t.mulc(t.add(BX, t.mul(BY, t.div(t.add(W, Int(3)), Int(4)))), 16)
    plain = lambda *x: [[(ALWAYS, y)] for y in x]
    if f == "BGRA4444":
        w = word(pos, 0, 2)
        return plain(*(field(w, k, 4).times(17) for k in (8, 4, 0, 12)))
    if f == "BGRA8888":
        return plain(at(pos, 2), at(pos, 1), at(pos, 0), at(pos, 3))
    if f == "ARGB1555":
        w = word(pos, 0, 2)
        return plain(five(field(w, 10, 5)), five(field(w, 5, 5)), five(field(w, 0, 5)), field(w, 15, 1).times(255))
    if f == "RGB565":
        return plain(*rgb565(word(pos, 0, 2)))
    if f == "R16":
        return plain(word(pos, 0, 2), L(0), L(0), L(65535))
    if f == "RGBA1010102":
        w = word(pos, 0, 4)
        return plain(field(w, 2, 8), field(w, 12, 8), field(w, 22, 8), field(w, 30, 2).times(85))
    n = 4 * j + i
    p, q = rgb565(word(pos, 8, 2)), rgb565(word(pos, 10, 2))
    ci = field(at(pos, 12 + j), 2 * i, 2)
    colours = []
    for a, b in zip(p, q):
        third = lambda x, y: op("div", x.times(2).plus(y).plus(L(1)), 3)
        colours.append([([("eq", ci.plus(L(-k)))], v) for k, v in enumerate((a, b, third(a, b), third(b, a)))])
    if f == "DXT5":
        a, b = at(pos, 0), at(pos, 1)
        ai = field(word(pos, 2, 6), 3 * n, 3)
        more, less = ("lt", b.plus(a, -1)), ("lt", a.plus(b, -1).plus(L(-1)))
        alpha = []
        for k in range(8):
            is_k = ("eq", ai.plus(L(-k)))
            if k < 2:
                alpha.append(([is_k], (a, b)[k]))
                continue
            alpha.append(([is_k, more], op("div", a.times(8 - k).plus(b, k - 1).plus(L(3)), 7)))
            alpha.append(([is_k, less], op("div", a.times(6 - k).plus(b, k - 1).plus(L(2)), 5) if k < 6 else L(0 if k == 6 else 255)))
    else:
        alpha = [(ALWAYS, field(word(pos, 0, 8), 4 * n, 4).times(17))]
    return colours + [alpha]


def channels(x):
    while x.op == "agg" and len(x.a[1]) == 1:
        x = x.a[1][0]
    return list(x.a[1]) if x.op == "agg" else [x]


def cases(x, more=(), depth=4):
    """a colour taken apart by the indices into tables"""
    ix = [y.a[1] for y in t.atoms(x, lambda y: y.op == "elem" and y.a[0].op == "agg" and y.a[1].op != "int")]
    ix = [z for z in dict.fromkeys(ix) if t.rng(z)[0] >= 0 and t.rng(z)[1] < 16]
    if not ix or not depth:
        yield x, list(more)
        return
    for v in range(t.rng(ix[0])[1] + 1):
        for r in cases(t.subst(x, {ix[0]: Int(v)}), tuple(more) + ((t.eq(ix[0], Int(v)), True),), depth - 1):
            yield r


def relevant(c):
    """conditions on the bytes; where the pixel lies is settled elsewhere"""
    return bool(t.atoms(c, lambda y: y.op in ("le", "elem")))


def one(ck, cfg, f):
    quiet = Quiet(ck)
    pics = c20.decode(quiet, cfg, f)
    ck.funcs |= quiet.funcs
    label = "colours of %s, %s" % (f, cfg)
    if not pics:
        raise Undecided("nothing is decoded")
    n = 0
    seen = set()
    for o, x in c20.shortest(pics):
        if x in seen:
            continue
        seen.add(x)
        if f == "BC7":
            m, k = bc7_order(o, x)
        else:
            m, k = picture(f, o, x)
        n += k
        if m:
            ck.bad(label, o.ctx.where(), m)
            return
    ck.ok(label, "%d colours" % n)


class Quiet:
    """decode without judging what is judged elsewhere"""

    def __init__(self, ck):
        self.ck, self.funcs = ck, set()

    def __getattr__(self, n):
        return getattr(self.ck, n)

    def ok(self, *a):
        pass

    def bad(self, *a):
        raise Undecided("the format is not decoded as it should be")


def picture(f, o, x):
    n = 0
    unsure = None
    try:
        blocks = c20.by_block(o, x)
    except c20.Differs as e:
        raise Undecided(str(e))
    for (i, j), got in sorted(blocks.items()):
        want = spec(f, i, j)
        for facts, colour in got:
            s = State()
            if not all(s.assume(c, bool(v)) for c, v in facts):
                continue
            chans = channels(s.deep(colour))
            if len(chans) != len(want):
                raise Undecided("a colour %s" % sh(colour))
            base = [y for c, v in facts if relevant(c) for y in fact(c, bool(v))]
            for k, ch in enumerate(chans):
                for val, more in cases(ch):
                    given = base + [y for c, v in more for y in fact(c, v)]
                    if settle(given) is None:
                        continue
                    for when, w in want[k]:
                        n += 1
                        r = compare(given + when, form(val), w)
                        if r == "?":
                            unsure = "the %d. channel of the pixel %d, %d: %s" % (k + 1, i, j, sh(val))
                        elif r:
                            return "the %d. channel of a pixel%s is %s" % (k + 1, "" if f in c20.PIXEL else " (%d, %d of its block)" % (i, j), r), n
    if unsure:
        raise Undecided(unsure)
    return None, n


def bc7_order(o, v):
    v = o.st.deep(v)
    raw = next(iter(t.atoms(v, lambda y: y.op == "imgraw")), None)
    if raw is None or raw.a[2].op != "flattab":
        raise Undecided("the image is %s" % sh(v))
    w, h, (cnt, es, bv) = raw.a[0], raw.a[1], raw.a[2].a
    px = [y for e in es for y in t.atoms(e, lambda y: y.op == "elem" and y.ty == "u32")]
    if len(set(px)) != 1 or len(es) != 4 or px[0].a[1] is not bv:
        raise Undecided("the colours are %s" % sh(raw.a[2]))
    d = next(iter(t.atoms(px[0], lambda y: y.op == "call" and y.a[0] == "bc7")), None)
    if d is None or not (same_in(o.st, w, W) and same_in(o.st, h, H)) or d.a[1] != (PIXELS, W, H) and tuple(d.a[1]) != (PIXELS, W, H):
        raise Undecided("the decoder is called with %s" % (sh(d) if d is not None else "nothing"))
    x = form(px[0])
    for k, (e, lo) in enumerate(zip(es, (16, 8, 0, 24))):
        r = compare([], form(e), field(x, lo, 8))
        if r == "?":
            raise Undecided("the colours are %s" % sh(raw.a[2]))
        if r:
            return "the %d. channel of a pixel is %s" % (k + 1, r), 4
    return None, 4
