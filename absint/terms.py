"""Hash-consed value terms: the value-numbering domain of the abstract interpreter.

A term names the value an expression has on every execution of a path. Integer
expressions are kept as linear normal forms over atoms, so two ways of writing the
same arithmetic get the same number; wrapping operations are kept modulo their width.
"""
INF = float("inf")


class T:
    __slots__ = ("op", "a", "id", "ty", "dom", "h")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t.ty = None
        t.dom = None
        t.h = None
        _all.append(t)
        _tab[k] = t
    return t


INTTY = {}
for _b in (8, 16, 32, 64, 128):
    INTTY["u%d" % _b] = (0, (1 << _b) - 1)
    INTTY["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INTTY["usize"] = INTTY["u64"]
INTTY["isize"] = INTTY["i64"]
INTTY["bool"] = (0, 1)
INTTY["char"] = (0, 0x10FFFF)
BITS = {k: (1 if k == "bool" else 32 if k == "char" else int(k[1:]) if k[1:].isdigit() else 64) for k in INTTY}
LENMAX = (1 << 63) - 1


def Int(n):
    return mk("int", n)


TRUE = Int(1)
FALSE = Int(0)
UNIT = mk("agg", ("tuple",), ())
ZERO = Int(0)
ONE = Int(1)


def is_int(t):
    return t.op == "int"


def tuple_(*f):
    return mk("agg", ("tuple",), tuple(f))


def adt(path, vi, name, fields):
    return mk("agg", ("adt", path, vi, name), tuple(fields))


def some(x):
    return adt("std::option::Option", 1, "Some", (x,))


NONE = adt("std::option::Option", 0, "None", ())


def ok(x):
    return adt("std::result::Result", 0, "Ok", (x,))


def err(x):
    return adt("std::result::Result", 1, "Err", (x,))


def array(fields):
    return mk("agg", ("array",), tuple(fields))


# ---------------------------------------------------------------- linear forms
def aslin(t):
    """(const, {atom: coeff})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def fromlin(c, d):
    it = [(k, v) for k, v in d.items() if v != 0]
    if not it:
        return Int(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda kv: kv[0].id)
    return mk("lin", c, tuple(it))


def add(a, b, k=1):
    c, d = aslin(a)
    c2, d2 = aslin(b)
    d = dict(d)
    for t, v in d2.items():
        d[t] = d.get(t, 0) + k * v
    return fromlin(c + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = aslin(a)
    return fromlin(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    if a.op == "int":
        return mulc(b, a.a[0])
    if b.op == "int":
        return mulc(a, b.a[0])
    c, d = aslin(a)
    c2, d2 = aslin(b)
    if len(d) * len(d2) > 64:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("mul", x, y)
    r = add(mulc(b, c), mulc(a, c2))
    r = sub(r, Int(c * c2))
    for t, v in d.items():
        for t2, v2 in d2.items():
            m = (list(t.a) if t.op == "mul" else [t]) + (list(t2.a) if t2.op == "mul" else [t2])
            m.sort(key=lambda t: t.id)
            r = add(r, mk("mul", *m), v * v2)
    return r


def rng(t):
    """path-independent range of an integer term"""
    if t.op == "int":
        return t.a[0], t.a[0]
    h = t.h
    if h is not None:
        return h
    h = _rng(t)
    t.h = h
    return h


def _rng(t):
    op = t.op
    if op == "lin":
        lo = hi = t.a[0]
        d = dict(t.a[1])
        # x - rem(x, m), a multiple of m between 0 and x
        for x, k in t.a[1]:
            if x.op == "rem" and x.a[1].op == "int" and k < 0 and d.get(x.a[0]) == -k and rng(x.a[0])[0] >= 0:
                h = rng(x.a[0])[1]
                m = x.a[1].a[0]
                hi = hi - k * (h if h == INF else h - h % m)
                del d[x], d[x.a[0]]
        for x, k in d.items():
            l, h = rng(x)
            if k > 0:
                lo = lo + k * l
                hi = hi + k * h
            else:
                lo = lo + k * h
                hi = hi + k * l
        return lo, hi
    if op == "wrap":
        return INTTY[t.a[1]]
    if op == "le":
        return INTTY[("i" if t.a[1] else "u") + str(8 * t.a[0])]
    if op in ("len",):
        return 0, LENMAX
    if op in ("lt0", "eq0", "feq", "flt", "fle", "peq", "seqeq", "and", "or", "not", "ovf", "haskey"):
        if op in ("and", "or") and t.ty and t.ty != "bool":
            pass
        else:
            return 0, 1
    if op == "mul":
        lo, hi = rng(t.a[0])
        for x in t.a[1:]:
            l, h = rng(x)
            c = [_m(lo, l), _m(lo, h), _m(hi, l), _m(hi, h)]
            lo, hi = min(c), max(c)
        return lo, hi
    if op == "div":
        l, h = rng(t.a[0])
        d = t.a[1]
        if d.op == "int" and d.a[0] > 0:
            k = d.a[0]
            return (_tdiv(l, k), _tdiv(h, k))
        if l >= 0 and rng(d)[0] >= 0:
            return 0, h
    if op == "rem":
        l, h = rng(t.a[0])
        d = t.a[1]
        dl, dh = rng(d)
        if dl > 0:
            return (0 if l >= 0 else -(dh - 1)), (dh - 1 if h > dh - 1 else max(h, 0))
    if op == "band":
        hs = [rng(x) for x in t.a]
        nn = [h for l, h in hs if l >= 0]
        if nn:
            return 0, min(nn)
    if op in ("bor", "bxor"):
        hs = [rng(x) for x in t.a]
        if all(l >= 0 and h != INF for l, h in hs):
            m = max(h for l, h in hs)
            return 0, (1 << int(m).bit_length()) - 1
    if op in ("min", "max"):
        a, b = rng(t.a[0]), rng(t.a[1])
        f = min if op == "min" else max
        return f(a[0], b[0]), f(a[1], b[1])
    if op == "elem" and t.a[0].op == "agg" and t.a[0].a[0] == ("array",) and t.a[0].a[1] and t.ty in INTTY:
        rs = [rng(x) for x in t.a[0].a[1]]
        lo, hi = INTTY[t.ty]
        return max(lo, min(r[0] for r in rs)), min(hi, max(r[1] for r in rs))
    if t.dom:
        return min(t.dom), max(t.dom)
    if t.ty in INTTY:
        return INTTY[t.ty]
    return -INF, INF


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _tdiv(a, k):
    if a in (INF, -INF):
        return a
    return a // k if a >= 0 else -((-a) // k)


def settype(t, ty):
    """record the integer type of an opaque atom (used for its range)"""
    if t.ty is None and ty in INTTY and t.op not in ("int", "lin", "wrap", "agg"):
        t.ty = ty
        t.h = None
    return t


def inrange(t, ty):
    lo, hi = rng(t)
    a, b = INTTY[ty]
    return a <= lo and hi <= b


def wrap(t, ty):
    """value of t reduced into type ty (two's complement)"""
    if ty in ("usize", "isize"):
        ty = "u64" if ty == "usize" else "i64"
    a, b = INTTY[ty]
    m = b - a + 1
    if t.op == "int":
        return Int((t.a[0] - a) % m + a)
    # look through inner wraps of at least this width
    c, d = aslin(t)
    nd = {}
    c0 = c
    todo = list(d.items())
    while todo:
        x, k = todo.pop()
        k %= m
        if k == 0:
            continue
        if x.op == "wrap" and (1 << BITS[x.a[1]]) % m == 0:
            c2, d2 = aslin(x.a[0])
            c0 += k * c2
            todo += [(y, k * v) for y, v in d2.items()]
            continue
        if x.op == "mul" and not all(inrange(f, "u%d" % BITS[ty]) for f in x.a):
            # a product is only needed modulo the width
            y = ONE
            for f in x.a:
                y = mul(y, wrap(f, "u%d" % BITS[ty]))
            c2, d2 = aslin(y)
            c0 += k * c2
            todo += [(z, k * v) for z, v in d2.items()]
            continue
        nd[x] = (nd.get(x, 0) + k) % m
    # try the exact value first
    if inrange(t, ty):
        return t
    c0 = (c0 - a) % m + a
    d3 = {x: (k if k <= m // 2 else k - m) for x, k in nd.items() if k % m}
    r = fromlin(c0, d3)
    if inrange(r, ty):
        return r
    if len(d3) == 1 and c0 == 0:
        (x, k), = d3.items()
        if k == 1 and x.op == "le" and 8 * x.a[0] == BITS[ty]:
            return mk("le", x.a[0], ty[0] == "i", x.a[2], x.a[3])
        if k == 1 and x.op == "le" and 8 * x.a[0] > BITS[ty]:
            if ty == "u8":
                return settype(REB["elem"](x.a[2], x.a[3]) if "elem" in REB else mk("elem", x.a[2], x.a[3]), "u8")
            return mk("le", BITS[ty] // 8, ty[0] == "i", x.a[2], x.a[3])
        if k == 1 and x.op in ("band", "bor", "bxor") and ty[0] == "u":
            # truncation distributes over bit operations
            return bitop(x.op, [wrap(y, ty) for y in x.a])
    return mk("wrap", r, ty)


def cast(t, fr, to):
    return wrap(t, to)


def complement(x):
    """(mask, y) when x is mask - y, the bitwise complement of the n-bit value y"""
    if x.op == "lin" and len(x.a[1]) == 1:
        c, d = aslin(x)
        (y, k), = d.items()
        if k == -1 and c > 0 and (c & (c + 1)) == 0:
            lo, hi = rng(y)
            if lo >= 0 and hi <= c:
                return c, y
    return None, None


def bitop(op, args):
    flat = []
    for x in args:
        if x.op == op:
            flat += list(x.a)
        else:
            flat.append(x)
    c = None
    rest = []
    if op == "bxor":
        f2 = []
        for x in flat:
            m, y = complement(x)
            if m is None:
                f2.append(x)
            else:
                f2 += [Int(m)] + (list(y.a) if y.op == "bxor" else [y])
        flat = f2
    for x in flat:
        if x.op == "int":
            v = x.a[0]
            c = v if c is None else (c & v if op == "band" else c | v if op == "bor" else c ^ v)
        else:
            rest.append(x)
    if op == "bxor":
        cnt = {}
        for x in rest:
            cnt[x] = cnt.get(x, 0) + 1
        rest = [x for x, n in cnt.items() if n % 2]
    else:
        rest = list(dict.fromkeys(rest))
    if not rest:
        if c is None:
            c = 0
        return Int(c)
    if c is not None:
        if op in ("bor", "bxor") and c == 0:
            c = None
        elif op == "band" and c == 0:
            return ZERO
        elif op == "band" and c > 0:
            if len(rest) == 1:
                x = rest[0]
                w = c.bit_length()
                low = (1 << w) - c  # 2^k when the mask keeps the bits k..w
                if w in (8, 16, 32, 64) and low & (low - 1) == 0 and low < 1 << w:
                    lo, hi = rng(x)
                    if lo >= 0 and (w == 64 or hi < 1 << w):
                        return sub(x, rem(x, Int(low)))
                if (c & (c + 1)) == 0:  # low mask
                    lo, hi = rng(x)
                    if lo >= 0 and hi <= c:
                        return x
                    n = c.bit_length()
                    if n in (8, 16, 32, 64):
                        return wrap(x, "u%d" % n)
                    if lo >= 0:
                        return rem(x, Int(c + 1))
                # mask of a bitwise or / shifted
                if x.op == "bor":
                    return bitop("bor", [bitop("band", [y, Int(c)]) for y in x.a])
                if x.op == "lin":
                    # disjoint-bits sum
                    p = parts(x)
                    if p is not None and len(p) > 1:
                        return or_parts([bitop("band", [y, Int(c)]) for y in p])
                    k0, d0 = aslin(x)
                    if not k0 and len(d0) == 1:
                        ((y, k),) = d0.items()
                        if k > 1 and k & (k - 1) == 0 and rng(y)[0] >= 0:
                            return mulc(bitop("band", [y, Int(c // k)]), k)
                b = bitrange(x)
                if b is not None:
                    used = c & ((1 << b[1]) - (1 << b[0]))
                    if used == 0:
                        return ZERO
                    if used == (1 << b[1]) - (1 << b[0]):
                        return x
                    if used != c:
                        return bitop("band", [x, Int(used)])
    if c is not None and op == "bxor" and c > 0 and (c & (c + 1)) == 0:
        # flipping every bit of an n-bit value
        y = bitop("bxor", rest)
        lo, hi = rng(y)
        if lo >= 0 and hi <= c:
            return sub(Int(c), y)
    if c is not None:
        rest.append(Int(c))
    if len(rest) == 1:
        return rest[0]
    if op in ("bor", "bxor"):
        # disjoint bit ranges: plain sum
        iv = []
        for x in rest:
            b = bitrange(x)
            if b is None:
                iv = None
                break
            iv.append(b)
        if iv is not None:
            s = sorted(iv)
            if all(s[i][1] <= s[i + 1][0] for i in range(len(s) - 1)):
                r = ZERO
                for x in rest:
                    r = add(r, x)
                return r
    rest.sort(key=lambda t: t.id)
    r = mk(op, *rest)
    return r


def bitrange(x):
    """[lo,hi) of bits that may be set in a non-negative term, or None"""
    lo, hi = rng(x)
    if lo < 0 or hi == INF:
        return None
    h = int(hi).bit_length()
    l = 0
    if x.op == "int":
        v = x.a[0]
        l = (v & -v).bit_length() - 1 if v else 0
    else:
        c, d = aslin(x)
        g = 0
        from math import gcd

        for t, k in d.items():
            kk = abs(k) * tz(t)
            g = gcd(g, kk)
        g = gcd(g, c)
        if g:
            l = (g & -g).bit_length() - 1
    return (l, max(h, l))


def tz(t):
    """a power of two dividing every value of t"""
    if t.op == "rem" and t.a[1].op == "int":
        return 1
    if t.op == "band":
        for x in t.a:
            if x.op == "int" and x.a[0]:
                return x.a[0] & -x.a[0]
    if t.op == "wrap":
        c, d = aslin(t.a[0])
        from math import gcd

        g = 0
        for x, k in d.items():
            g = gcd(g, abs(k) * tz(x))
        g = gcd(g, abs(c))
        return (g & -g) if g else 1
    return 1


def parts(x):
    """split a sum of terms with disjoint bit ranges"""
    c, d = aslin(x)
    ps = [mulc(t, k) for t, k in d.items()]
    if c:
        ps.append(Int(c))
    iv = []
    for p in ps:
        b = bitrange(p)
        if b is None:
            return None
        iv.append(b)
    s = sorted(iv)
    if all(s[i][1] <= s[i + 1][0] for i in range(len(s) - 1)):
        return ps
    return None


def or_parts(ps):
    return bitop("bor", ps)


def div(a, b):
    if b.op == "int" and b.a[0] != 0:
        k = b.a[0]
        if k == 1:
            return a
        if a.op == "int":
            v = a.a[0]
            q = abs(v) // abs(k)
            return Int(q if (v >= 0) == (k > 0) else -q)
        if k > 0:
            c, d = aslin(a)
            if c % k == 0 and all(v % k == 0 for v in d.values()):
                return fromlin(c // k, {t: v // k for t, v in d.items()})
            lo, hi = rng(a)
            if lo >= 0 and hi < k:
                return ZERO
            if not c and len(d) == 2:
                for x, v in d.items():
                    if v == -1 and x.op == "rem" and x.a[1].op == "int" and d.get(x.a[0]) == 1 and rng(x.a[0])[0] >= 0:
                        m = x.a[1].a[0]
                        if k % m == 0:
                            return div(x.a[0], b)
                        if m % k == 0:
                            return mulc(div(x.a[0], Int(m)), m // k)
            if lo >= 0:
                # pull out exact multiples when the rest stays non-negative
                q = {t: v for t, v in d.items() if v % k == 0}
                r = {t: v for t, v in d.items() if v % k}
                cq = (c // k) * k
                rest = fromlin(c - cq, r)
                if q or cq:
                    if rng(rest)[0] >= 0 and rng(fromlin(cq, q))[0] >= 0:
                        return add(fromlin(cq // k, {t: v // k for t, v in q.items()}), div(rest, b))
                if a.op == "div" and a.a[1].op == "int":
                    return div(a.a[0], Int(a.a[1].a[0] * k))
                if a.op == "wrap" and rng(a.a[0])[0] >= 0 and k in (1 << 8, 1 << 16, 1 << 32) and BITS[a.a[1]] > k.bit_length() - 1:
                    left = "u%d" % (BITS[a.a[1]] - (k.bit_length() - 1))
                    if a.a[1][0] == "u" and left in INTTY:
                        return wrap(div(a.a[0], b), left)
    return mk("div", a, b)


def rem(a, b):
    if b.op == "int" and b.a[0] > 0:
        k = b.a[0]
        if a.op == "int":
            v = a.a[0]
            return Int(v % k if v >= 0 else -((-v) % k))
        if k == 1:
            return ZERO
        c, d = aslin(a)
        if c % k == 0 and not any(v % k for v in d.values()):
            return ZERO
        lo, hi = rng(a)
        if lo >= 0:
            if hi < k:
                return a
            r = {t: v % k for t, v in d.items() if v % k}
            rest = fromlin(c % k, r)
            if rest is not a:
                rl, rh = rng(rest)
                if rl >= 0:
                    return rem(rest, b)
            if (k & (k - 1)) == 0 and k.bit_length() - 1 in (8, 16, 32, 64):
                return wrap(a, "u%d" % (k.bit_length() - 1))
    return mk("rem", a, b)


def shl(a, n, ty):
    if n.op == "int":
        return wrap(mulc(a, 1 << n.a[0]), ty)
    return mk("shl", a, n, ty)


def shr(a, n):
    if n.op == "int":
        lo, hi = rng(a)
        if lo >= 0:
            p = parts(a) if a.op == "lin" else None
            if p is not None:
                r = ZERO
                for x in p:
                    r = add(r, div(x, Int(1 << n.a[0])))
                return r
            return div(a, Int(1 << n.a[0]))
        if a.op == "int":
            return Int(a.a[0] >> n.a[0])
    return mk("shr", a, n)


# ---------------------------------------------------------------- booleans
def lt0(l):
    lo, hi = rng(l)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    # integer normal form: divide by the gcd
    from math import gcd

    c, d = aslin(l)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum + c < 0  <=>  sum/g <= floor((-1-c)/g)
        c2 = -((-1 - c) // g) - 1
        l = fromlin(c2, {t: v // g for t, v in d.items()})
    return mk("lt0", l)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), Int(-1)))


def eq0(l):
    lo, hi = rng(l)
    if lo > 0 or hi < 0:
        return FALSE
    if l.op == "int":
        return TRUE if l.a[0] == 0 else FALSE
    from math import gcd

    c, d = aslin(l)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if c % g:
        return FALSE
    s = g
    first = min(d.items(), key=lambda kv: kv[0].id)
    if first[1] < 0:
        s = -g
    l = fromlin(c // s, {t: v // s for t, v in d.items()})
    if l.op == "lin" and len(l.a[1]) == 1 or l.op != "lin":
        (x, k), = aslin(l)[1].items()
        c = aslin(l)[0]
        if k == 1 and rng(x) == (0, 1) and x.op in BOOLOPS:
            if c == -1:
                return x
            if c == 0:
                return not_(x)
    return mk("eq0", l)


BOOLOPS = ("lt0", "eq0", "feq", "flt", "fle", "peq", "seqeq", "and", "or", "not", "ovf", "haskey")


def eq(a, b):
    if a is b:
        return TRUE
    return eq0(sub(a, b))


def not_(t):
    if t.op == "int":
        return Int(1 - t.a[0])
    if t.op == "lt0":
        return lt0(sub(Int(-1), t.a[0]))
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def and_(a, b):
    if a.op == "int":
        return b if a.a[0] else FALSE
    if b.op == "int":
        return a if b.a[0] else FALSE
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("and", x, y)


def or_(a, b):
    if a.op == "int":
        return TRUE if a.a[0] else b
    if b.op == "int":
        return TRUE if b.a[0] else a
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("or", x, y)


# ---------------------------------------------------------------- substitution / printing
def rebuild(op, a, ty=None):
    """re-normalising constructor"""
    if op == "lin":
        r = Int(a[0])
        for t, k in a[1]:
            r = add(r, t, k)
        return r
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    f = {"wrap": wrap, "div": div, "rem": rem, "shr": shr, "shl": shl, "lt0": lt0, "eq0": eq0, "not": not_, "and": and_, "or": or_,
         "fadd": None}.get(op)
    if f:
        return f(*a)
    if op in ("band", "bor", "bxor"):
        return bitop(op, list(a))
    if op in REB:
        r = REB[op](*a)
        if ty and r.ty is None and r.op == op:
            settype(r, ty)
        return r
    r = mk(op, *a)
    if ty and r.ty is None:
        r.ty = ty
    return r


REB = {}


def subst(t, m, memo=None):
    """replace terms by terms (m: dict)"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return r if any(p is not q for p, q in zip(r, x)) else x
        if not isinstance(x, T):
            return x
        y = m.get(x)
        if y is not None:
            return y
        y = memo.get(x)
        if y is not None:
            return y
        if x.op == "int":
            return x
        na = go(x.a)
        if na is x.a:
            y = x
        else:
            y = rebuild(x.op, na, x.ty)
            if x.dom and y.dom is None:
                y.dom = x.dom
        memo[x] = y
        return y

    return go(t)


def atoms(t, pred, acc=None, seen=None):
    """all subterms satisfying pred"""
    if acc is None:
        acc = []
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += list(x)
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                acc.append(x)
            st += list(x.a)
    return acc


def contains(t, pred):
    return bool(atoms(t, pred))


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "lin":
        r = []
        for x, k in a[1]:
            r.append((("%+d*" % k) if abs(k) != 1 else ("+" if k > 0 else "-")) + s(x))
        if a[0]:
            r.append("%+d" % a[0])
        return "(" + "".join(r).lstrip("+") + ")"
    if o == "agg":
        k = a[0]
        if k[0] == "adt":
            return "%s(%s)" % (k[3] or k[1].split("::")[-1], ",".join(s(x) for x in a[1]))
        return "%s(%s)" % ({"tuple": "", "array": "arr"}.get(k[0], k[0]), ",".join(s(x) for x in a[1]))
    if o == "sym":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "loc":
        return "%%%s.%s" % a
    if o == "ref":
        return "&" + s(a[0]) + "".join("." + show(p, d + 1) for p in a[1])
    if o == "deref":
        return "*" + s(a[0])
    if o == "val":
        return s(a[0]) + "^"
    return "%s(%s)" % (o, ",".join(show(x, d + 1) for x in a))
