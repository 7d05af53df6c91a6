"""Telling two value terms apart.

Equal normal forms mean equal values. Different normal forms may still mean the same
function (an algebraic rewriting the normal form does not know), so a difference is only
reported when the two terms denote different functions of their inputs: an assignment of
the input atoms is searched under which the terms differ while the path's facts hold.
Terms with parts whose meaning is unknown stay undecided.
"""
import math
import random
import struct
from . import terms as t
from .terms import T


class Opaque(Exception):
    pass


# calls a rule introduces as symbols of its own: any value is possible
FREE = set()


def free(name):
    return name in FREE or any(name.startswith(p) for p in FREE if p.endswith(":"))


def arg(y, env):
    try:
        return ev(y, env)
    except Opaque:
        return y


ATOMS = ("sym", "val", "elem", "at")


def _u(v, bits):
    return v & ((1 << bits) - 1)


def ev(x, env):
    r = env.get(x)
    if r is None:
        r = _ev(x, env)
        env[x] = r
    return r


def byte(seq, i, env):
    """the byte at a concrete index of an input sequence"""
    k = ("byte", seq, i)
    r = env.get(k)
    if r is None:
        r = env["rand"].randrange(256)
        if env.get("grammar") and env["rand"].random() < 0.5:
            r = env["rand"].choice(EDGE)
        env[k] = r
    return r


# ---------------------------------------------------------------- reading symbols
# A rule may describe reading as grammar symbols: rd:N(file, p) is the value of symbol N at p and
# end:N(file, p) the position behind it. Their meaning on concrete bytes:
EDGE = [0x80, 0x7F, 0, 1, 2, 4, 0xFF, 0xFE, 0xFC, 0x73, 0x1B]
WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8}


def num(seq, p, n, signed, env):
    pool = env.get("consts")
    if n > 1 and pool and env["rand"].random() < 0.3 and not any(("byte", seq, p + i) in env for i in range(n)):
        v = env["rand"].choice(pool)
        if -(1 << (8 * n - 1)) <= v < 1 << (8 * n):
            for i in range(n):
                env[("byte", seq, p + i)] = v >> (8 * i) & 255
    v = 0
    for i in range(n):
        v |= byte(seq, p + i, env) << (8 * i)
    if signed and v >> (8 * n - 1):
        v -= 1 << (8 * n)
    return v


def metaof(seq, p, env):
    """(offset, length, kind, end) of the encoded string whose length byte is at p"""
    b = num(seq, p, 1, True, env)
    if b == 0:
        return p + 1, 0, 3, p + 1
    if b in (127, -128):
        n, q = num(seq, p + 1, 4, True, env), p + 5
        if n < 0 or n > 1 << 24:
            raise Opaque("index")
    else:
        n, q = abs(b), p + 1
    n *= 2 if b > 0 else 1
    return q, n, 1 if b > 0 else 0, q + n


def blockof(seq, p, base, env):
    k = byte(seq, p, env)
    if k in (0, 0x73):
        return metaof(seq, p + 1, env)
    if k in (1, 0x1B):
        ref = num(seq, p + 1, 4, True, env)
        if ref < 0:
            raise Opaque("index")
        return metaof(seq, base + ref, env)[:3] + (p + 5,)
    return 0, 0, 3, p + 1


def symbol(x, env):
    """value of a reading symbol (or of a field of it); raises Opaque for symbols without meaning here"""
    fldno = None
    y = x
    while y.op in ("fld", "at"):
        if y.op == "fld":
            fldno = y.a[1]
        y = y.a[0]
    what, _, n = y.a[0].partition(":")
    a = y.a[1]
    if what in ("end", "errpos") and len(a) == 1:
        k = (y.a[0], ev(a[0], env))
        if k not in env:
            env[k] = k[1] + env["rand"].randrange(1, 200)
        return env[k]
    seq, p = a[0], ev(a[1], env)
    if what == "errpos":
        raise Opaque("position after an error")
    n = n[5:] if n.startswith("read_") else n
    if n in WIDTH:
        if what == "end":
            return p + WIDTH[n]
        if n in ("float", "double"):
            return floatof(num(seq, p, WIDTH[n], False, env), WIDTH[n])
        return num(seq, p, WIDTH[n], n[0] == "i", env)
    if n in ("wz_int", "wz_int64", "wz_long"):
        w = 4 if n == "wz_int" else 8
        if ("byte", seq, p) not in env and env["rand"].random() < 0.3:
            env[("byte", seq, p)] = 0x80
        b = num(seq, p, 1, True, env)
        if what == "end":
            return p + 1 + (w if b == -128 else 0)
        return num(seq, p + 1, w, True, env) if b == -128 else b
    if n in ("wz_string_block", "wz_string_block_meta", "wz_string", "wz_string_meta"):
        o, l, k, e = blockof(seq, p, ev(a[2], env), env) if "block" in n else metaof(seq, p, env)
        if what == "end":
            return e
        if n.endswith("_meta"):
            if fldno in (0, 1, 2):
                return (o, l, k)[fldno]
            return (o, l, k)
        return env.get(("text", seq, p)) or ("text", seq, o, l, k)
    raise Opaque("symbol " + n)


def floatof(bits, n):
    import struct

    v = struct.unpack("<f" if n == 4 else "<d", bits.to_bytes(n, "little"))[0]
    if v != v:
        raise Opaque("index")
    return v


class Nan(float):
    """not a number, the same as any other"""

    def __eq__(self, o):
        return o != o

    def __ne__(self, o):
        return o == o

    __hash__ = float.__hash__


def issymbol(x):
    while x.op in ("fld", "at") and isinstance(x.a[0], T):
        x = x.a[0]
    return x.op == "call" and isinstance(x.a[0], str) and x.a[0].startswith(("rd:", "end:", "errpos:")) and not free(x.a[0])


def settext(x, k, env):
    """make the string block x stands for spell a text of plain characters"""
    seq, p = x.a[1][0], ev(x.a[1][1], env)
    if len(k) > 100 or not k:
        raise Opaque("index")
    if "block" in x.a[0]:
        env[("byte", seq, p)] = 0x73
        env[("byte", seq, p + 1)] = 256 - len(k)
    else:
        env[("byte", seq, p)] = 256 - len(k)
    env[("text", seq, p)] = k


_dep = {}


def scoped(step, bv, acc):
    """subterms of a step function that depend on its bound variables"""
    k = (step, bv, acc)
    r = _dep.get(k)
    if r is None:
        r = [y for y in t.atoms(step, lambda y: True) if t.contains(y, lambda z: z is bv or z is acc)]
        _dep[k] = r
    return r


def seqv(x, env):
    """concrete contents of a sequence whose elements are determined, else None"""
    if x.op == "at":
        return seqv(x.a[0], env)
    if x.op == "seqof" and x.a[0] in ("chars", "bytes"):
        return seqv(x.a[1], env)
    if x.op == "call" and x.a[0] == "to_string" and x.a[1][0].op == "unk" and x.a[1][0].a[0] in t.INTTY:
        return [ord(c) for c in str(ev(x.a[1][1], env))]
    if x.op == "agg" and x.a[0][0] == "array":
        return [ev(y, env) for y in x.a[1]]
    if x.op == "bytes":
        return [ord(c) for c in x.a[0]] if isinstance(x.a[0], str) else list(x.a[0])
    if x.op == "call" and x.a[0] in ("String::from_utf16_lossy", "String::from_utf8_lossy", "String::from_utf16", "String::from_utf8") and len(x.a[1]) == 1:
        q = seqv(x.a[1][0], env)
        if q is None or not all(isinstance(y, int) for y in q):
            return None
        if "16" in x.a[0]:
            r = b"".join(_u(y, 16).to_bytes(2, "little") for y in q).decode("utf-16-le", "replace")
        else:
            r = bytes(_u(y, 8) for y in q).decode("utf-8", "replace")
        return list(r.encode("utf-8", "replace"))
    if x.op == "tab":
        n = ev(x.a[0], env)
        if not 0 <= n <= 128:
            raise Opaque("index")
        dep = scoped(x.a[1], x.a[2], None)
        r = []
        for i in range(n):
            for d in dep:
                env.pop(d, None)
            env[x.a[2]] = i
            r.append(ev(x.a[1], env))
        for d in dep:
            env.pop(d, None)
        return r
    p = pushed(x)
    if p is not None:
        return [ev(y, env) for y in p]
    return None


def pushed(x):
    """the elements of a sequence built one by one"""
    r = []
    while x.op == "push":
        r.append(x.a[1])
        x = x.a[0]
    return r[::-1] if x.op == "empty" else None


def single(v, x):
    """a float of the type a conversion yields"""
    if x.a[-1] == "f32":
        try:
            return struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return v


def constants(terms):
    """the numbers a set of terms mentions, and their neighbours: where functions of integers change"""
    out, seen = set(), set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
        elif isinstance(y, int) and not isinstance(y, bool):
            if abs(y) < 1 << 65:
                out.update((y - 1, y, y + 1))
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            if y.op in ("int", "lin", "mul", "rem", "div", "lt0", "eq0", "wrap", "min", "max", "ite", "and", "or", "not", "band", "bor", "bxor", "shr", "shl", "call"):
                go(y.a)

    for x in terms:
        go(x)
    return sorted(v for v in out if abs(v) > 255)


def _ev(x, env):
    o, a = x.op, x.a
    if o == "int":
        return a[0]
    if o == "lin":
        return a[0] + sum(k * ev(y, env) for y, k in a[1])
    if o == "mul":
        r = 1
        for y in a:
            r *= ev(y, env)
        return r
    if o == "wrap":
        lo, hi = t.INTTY[a[1]]
        return (ev(a[0], env) - lo) % (hi - lo + 1) + lo
    if o in ("band", "bor", "bxor"):
        r = ev(a[0], env)
        for y in a[1:]:
            v = ev(y, env)
            r = r & v if o == "band" else r | v if o == "bor" else r ^ v
        return r
    if o == "div":
        p, q = ev(a[0], env), ev(a[1], env)
        if q == 0:
            raise Opaque("division by zero")
        r = abs(p) // abs(q)
        return r if (p >= 0) == (q > 0) else -r
    if o == "rem":
        p, q = ev(a[0], env), ev(a[1], env)
        if q == 0:
            raise Opaque("division by zero")
        r = abs(p) % abs(q)
        return r if p >= 0 else -r
    if o == "shl":
        lo, hi = t.INTTY[a[2]]
        return ((ev(a[0], env) << ev(a[1], env)) - lo) % (hi - lo + 1) + lo
    if o == "shr":
        return ev(a[0], env) >> ev(a[1], env)
    if o == "rotl":
        b = a[2]
        v = ev(a[0], env)
        n = ev(a[1], env) % b
        neg = t.rng(a[0])[0] < 0
        u = _u(v, b)
        u = _u((u << n) | (u >> (b - n)), b)
        if neg and u >> (b - 1):
            u -= 1 << b
        return u
    if o == "bitnot":
        return ~ev(a[0], env)
    if o == "min":
        return min(ev(y, env) for y in a[:2])
    if o == "max":
        return max(ev(y, env) for y in a[:2])
    if o == "lt0":
        return int(ev(a[0], env) < 0)
    if o == "eq0":
        return int(ev(a[0], env) == 0)
    if o == "not":
        return 1 - ev(a[0], env)
    if o == "and":
        return ev(a[0], env) & ev(a[1], env)
    if o == "or":
        return ev(a[0], env) | ev(a[1], env)
    if o == "ite":
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if o == "le":
        n, s, seq, pos = a
        return num(seq, ev(pos, env), n, s, env)
    if o in ("call", "fld") and issymbol(x):
        return symbol(x, env)
    if o == "bits" and a[1] in ("f32", "f64"):
        n = 4 if a[1] == "f32" else 8
        v = struct.unpack("<f" if n == 4 else "<d", _u(ev(a[0], env), 8 * n).to_bytes(n, "little"))[0]
        return Nan("nan") if v != v else v
    if o == "i2f":
        return single(float(ev(a[0], env)), x)
    if o == "f2f":
        return single(ev(a[0], env), x)
    if o == "f2i":
        v = ev(a[0], env)
        if v != v:
            return 0
        lo, hi = t.INTTY[a[1]]
        return lo if v <= lo else hi if v >= hi else int(v)
    if o == "float":
        try:
            return float(a[0])
        except ValueError:
            raise Opaque("float")
    if o == "seqeq":
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            if q.op == "bytes" and isname(p):
                return int(ev(p, env) == q.a[0])
        p, q = seqv(a[0], env), seqv(a[1], env)
        if p is not None and q is not None:
            return int(p == q)
        if any(word(y) for y in a) and all(word(y) or isname(y) for y in a):
            return int(text(a[0], env) == text(a[1], env))
    if o == "fold":
        init, step, bv, acc, cnt = a
        n = ev(cnt, env)
        if n > 4096:
            raise Opaque("long fold")
        v = ev(init, env)
        dep = scoped(step, bv, acc)
        for i in range(max(n, 0)):
            for d in dep:
                env.pop(d, None)
            env[bv] = i
            env[acc] = v
            v = ev(step, env)
        for d in dep:
            env.pop(d, None)
        return v
    if o == "at":
        return ev(a[0], env)
    if o == "call":
        n = a[0].rsplit("::", 1)[-1]
        if n == "to_ascii_lowercase":
            v = ev(a[1][0], env)
            return v + 32 if 65 <= v <= 90 else v
        if n == "to_ascii_uppercase":
            v = ev(a[1][0], env)
            return v - 32 if 97 <= v <= 122 else v
        if free(a[0]):
            k = ("uf", a[0]) + tuple(arg(y, env) for y in a[1])
            r = env.get(k)
            if r is None:
                r = env[k] = atom(x, env) if x.ty in t.INTTY else env["rand"].choice([0, 1, 2, 3, 64, 1000, env["rand"].randrange(1 << 40)])
            return r
        if n in ("count_ones",):
            return bin(ev(a[1][0], env) & ((1 << 64) - 1)).count("1")
    if o == "len":
        q = seqv(a[0], env)
        if q is not None:
            return len(q)
        if decoded(a[0]):
            raise Opaque("text")
    if o == "elem":
        q = seqv(a[0], env)
        if q is not None:
            i = ev(a[1], env)
            if not 0 <= i < len(q):
                raise Opaque("index")
            return q[i]
        if x.ty == "u8" or (x.ty is None and a[0] in env.get("bytes", ())):
            return byte(a[0], ev(a[1], env), env)
        if isinstance(a[1], T):
            k = ("el", a[0], ev(a[1], env))
            r = env.get(k)
            if r is None:
                r = env[k] = atom(x, env)
            return r
    if o == "phi" and env.get("phis"):
        lo, hi = t.rng(x)
        v = env["rand"].randrange(1 << env["rand"].randrange(1, 30))
        return int(min(max(v, lo), hi))
    if o in ("bv", "acc"):
        return atom(x, env) if x.ty != "u64" else env["rand"].randrange(1 << env["rand"].randrange(1, 12))
    if o in ("sym", "val", "deref", "fld", "proj", "elem", "len"):
        if o == "elem" and not isinstance(a[1], T):
            raise Opaque(o)
        return atom(x, env)
    raise Opaque(o)


def atom(x, env):
    ty = x.ty
    lo, hi = t.rng(x)
    if ty is None and (lo in (-t.INF,) or hi == t.INF):
        raise Opaque("untyped " + t.show(x)[:60])
    r = env["rand"]
    m = env["mode"]
    c = r.random()
    if x.dom:
        return r.choice(sorted(x.dom))
    if m == 0 or c < 0.25:
        v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, 127, 128, 255, 256, 65535] + env.get("consts", [])[:40])
    elif c < 0.5:
        v = r.randrange(0, 1 << r.randrange(1, 40))
    else:
        v = r.randrange(lo, hi + 1)
    return min(max(v, lo), hi)


PLAIN = ("sym", "val", "deref", "fld", "proj", "elem", "len")


def word(y):
    """a part of a text that was split: free of choice, apart from how many there are"""
    return y.op == "elem" and isinstance(y.a[1], T) and y.a[0].op == "seqof" and y.a[0].a[0] == "split"


def isname(y):
    return y.op == "call" and y.a[0] in ("rd:read_wz_string_block", "rd:read_wz_string")


def text(y, env):
    if not word(y):
        return ev(y, env)
    k = ("word", y.a[0], ev(y.a[1], env))
    return env.setdefault(k, k)


def cell(y, env):
    """where the value of an element is kept"""
    return ("byte" if y.ty == "u8" or (y.ty is None and y.a[0] in env.get("bytes", ())) else "el", y.a[0], ev(y.a[1], env))


def inputs(env):
    """the inputs chosen, without what was computed from them"""
    return {q: w for q, w in env.items() if not isinstance(q, T) or (q.op in PLAIN and not (q.op == "elem" and isinstance(q.a[1], T)))}


def directed(facts, env):
    """satisfy equalities by choosing the input they determine"""
    for f, v in facts:
        while f.op == "not":
            f, v = f.a[0], not v
        if f.op == "seqeq" and v:
            for p, q in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if q.op == "bytes" and isname(p):
                    settext(p, q.a[0], env)
                elif word(p) and isname(q):
                    env[("word", p.a[0], ev(p.a[1], env))] = ev(q, env)
            continue
        if f.op != "eq0" or not v:
            continue
        c, d = t.aslin(f.a[0])
        for x, k in d.items():
            y = x.a[0] if x.op == "wrap" else x
            if k not in (1, -1) or y.op not in PLAIN or y in env:
                continue
            rest = t.sub(f.a[0], t.mulc(x, k))
            if t.contains(rest, lambda z: z is y):
                continue
            val = -ev(rest, env) * k
            lo, hi = t.rng(y)
            if lo <= val <= hi and (y.dom is None or val in y.dom):
                if x.op != "wrap" or (t.INTTY[x.a[1]][0] <= val <= t.INTTY[x.a[1]][1]):
                    if y.op == "elem" and isinstance(y.a[1], T):
                        if cell(y, env) in env:
                            continue
                        env[cell(y, env)] = val
                        continue
                    env[y] = val
                    env.pop(x, None)
            break


def deps(x, memo):
    """what the value of a term depends on"""
    r = memo.get(x)
    if r is not None:
        return r
    r = set()
    memo[x] = r
    o = x.op
    if o in ("call", "fld") and issymbol(x):
        while x.op != "call":
            x = x.a[0]
        if len(x.a[1]) > 1:
            r.add(("seq", x.a[1][0]))
            for y in x.a[1][1:]:
                r |= deps(y, memo)
        else:
            r.add(("uf", x.a[0]))
            r |= deps(x.a[1][0], memo)
    elif o == "elem" and isinstance(x.a[1], T) and seqlike(x.a[0]):
        r.add(("seq", x.a[0]))
        r |= deps(x.a[1], memo)
    elif o == "le":
        r.add(("seq", x.a[2]))
        r |= deps(x.a[3], memo)
    elif o in PLAIN or o in ("phi", "discr") or (o == "call" and not free(x.a[0]) and x.a[0].rsplit("::", 1)[-1] not in ("to_ascii_lowercase", "to_ascii_uppercase", "count_ones", "to_string")):
        r.add(x)
        if o == "len":
            r.add(("seq", x.a[0]))
    else:
        if o == "call":
            r.add(("uf", x.a[0]))
        for y in kids(x.a):
            r |= deps(y, memo)
    memo[x] = r
    return r


def kids(a):
    for y in a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from kids(y)


def seqlike(s):
    return not (s.op == "agg" or s.op == "seqof")


def relevant(facts, a, b):
    """the facts connected with the two terms through shared inputs. A fact about a loop's variables
    counts when it speaks of the same contents: bounds alone say how often the loop went round, and
    that is not an input"""
    memo = {}
    inab = {y for x in (a, b) for y in t.atoms(x, lambda y: y.op == "phi")}
    rounds = [x for x in facts if any(y not in inab for y in t.atoms(x[0], lambda y: y.op == "phi"))]
    if rounds:
        strong = lambda s: {y for y in s if not isinstance(y, T)}
        keep = connected(facts, strong(deps(a, memo) | deps(b, memo)), lambda x: strong(deps(x, memo)))
        facts = [f for f in facts if not any(f is r for r in rounds) or any(f is k for k in keep)]
    return connected(facts, deps(a, memo) | deps(b, memo), lambda x: deps(x, memo))


def connected(facts, have, of):
    have = set(have)
    rest = [(f, of(f[0])) for f in facts]
    out = set()
    while True:
        k = [i for i, (f, d) in enumerate(rest) if i not in out and d & have]
        if not k:
            return [f for i, f in enumerate(facts) if i in out]
        for i in k:
            have |= rest[i][1]
            out.add(i)


def need(c, v):
    """a fact as (form, kind): form < 0, form >= 0, form == 0 or form != 0"""
    while c.op == "not":
        c, v = c.a[0], not v
    if c.op == "lt0":
        return c.a[0], "<" if v else ">="
    if c.op == "eq0":
        return c.a[0], "==" if v else "!="
    return None, None


def repair(facts, env, rounds=40):
    """adjust single inputs until the facts hold"""
    r = env["rand"]
    for _ in range(rounds):
        bad = [f for f in facts if ev(f[0], env) != (1 if f[1] else 0)]
        if not bad:
            return True
        f, v = r.choice(bad)
        form, kind = need(f, v)
        if form is None:
            return False
        c, d = t.aslin(form)
        cand = []
        for x, k in d.items():
            y = x.a[0] if x.op == "wrap" else x
            if (y.op in PLAIN or y.op == "le") and abs(k) <= 64 and not t.contains(t.sub(form, t.mulc(x, k)), lambda z: z is y):
                cand.append((y, k))
            elif y.op in ("mul", "rem", "div", "min", "max", "bxor", "band", "bor"):
                for z in kids(y.a):
                    z = z.a[0] if z.op == "wrap" else z
                    if z.op in PLAIN:
                        cand.append((z, None))
        if not cand:
            return False
        y, k = r.choice(cand)
        lo, hi = t.rng(y)
        if k is None:
            val = r.choice([lo if lo != -t.INF else 0, 0, 1, 2, 16, 1000, 1 << 20])
        else:
            cur, now = ev(form, env), ev(y, env)
            slack = r.choice([0, 0, 1, 2, 7, 100, 5000])
            want = {"<": -1 - slack, ">=": slack, "==": 0, "!=": r.choice([1, -1, 5])}[kind]
            dv, m = divmod(want - cur, k)
            if m and kind == "==":
                continue
            if m and kind == ">=" and k > 0:
                dv += 1
            if m and kind == "<" and k < 0:
                dv += 1
            val = now + dv
        val = max(lo, min(hi, val))
        if val in (t.INF, -t.INF) or (y.dom is not None and val not in y.dom):
            continue
        at = cell(y, env) if y.op == "elem" and isinstance(y.a[1], T) else y
        keep = inputs(env)
        env.clear()
        env.update(keep)
        env[at] = val
        if y.op == "le":
            n, s, seq, pos = y.a
            p = ev(pos, env)
            env.pop(y, None)
            for q in range(n):
                env[("byte", seq, p + q)] = val >> (8 * q) & 255
        elif y.op == "elem" and isinstance(y.a[1], T) and seqv(y.a[0], env) is None:
            i = ev(y.a[1], env)
            env[("byte", y.a[0], i) if y.ty == "u8" else ("el", y.a[0], i)] = val
    return False


def differ(a, b, facts=(), tries=400, seed=1, budget=8.0, phis=False):
    """an assignment telling a and b apart ({atom: value}), None when none was found;
    raises Opaque when the terms contain parts without a known meaning"""
    import time

    t0 = time.time()
    budget = min(budget, max(0.5, (60 - SPENT[0]) / 10))
    try:
        return _differ(a, b, facts, tries, seed, budget, phis)
    finally:
        SPENT[0] += time.time() - t0


# seconds used so far: a check that asks for many witnesses searches less for each
SPENT = [0.0]


def _differ(a, b, facts, tries, seed, budget, phis):
    import time

    t0 = time.time()
    met = 0
    seqs = set()
    for x in [a, b] + [f for f, _ in facts]:
        for y in t.atoms(x, lambda y: y.op == "le" or (y.op == "elem" and y.ty == "u8")):
            seqs.add(y.a[2] if y.op == "le" else y.a[0])
    gram = any(t.atoms(x, issymbol) for x in (a, b))
    consts = constants([a, b])
    i = 0
    while (i < tries or met < 150) and time.time() - t0 < budget and i < 100 * tries:
        env = {"rand": random.Random(seed * 1000003 + i), "mode": i % 8, "bytes": seqs, "phis": phis, "grammar": gram, "consts": consts}
        i += 1
        try:
            directed(facts, env)
            if not all(ev(f, env) == (1 if v else 0) for f, v in facts):
                if i % 2 or not repair(facts, env):
                    continue
            met += 1
            x, y = ev(a, env), ev(b, env)
        except Opaque as e:
            if str(e) in ("division by zero", "index", "long fold"):
                continue
            raise
        if x != y and phis is False:
            # once more from the inputs alone
            env = inputs(env)
            if not all(ev(f, env) == (1 if v else 0) for f, v in facts):
                continue
            x, y = ev(a, env), ev(b, env)
        if x != y:
            return {t.show(k): v for k, v in env.items() if isinstance(k, T) and k.op in PLAIN + ("le",)}, x, y
    return None


def path_facts(st):
    f = []
    for form, (lo, hi) in st.bounds.items():
        if lo == hi and form.op == "seqeq":
            p = [pushed(x) for x in form.a]
            k = 0 if p[0] else 1
            if lo == 1 and p[k] and form.a[1 - k].op == "bytes" and len(form.a[1 - k].a[0]) == len(p[k]):
                f += [(t.eq(x, t.Int(v)), True) for x, v in zip(p[k], seqv(form.a[1 - k], {}))]
            else:
                f.append((form, lo == 1))
            continue
        if lo != -t.INF:
            f.append((t.le(t.Int(lo), form), True))
        if hi != t.INF:
            f.append((t.le(form, t.Int(hi)), True))
    closed = {}
    for n in st.notes:
        if n[0] == "closed":
            closed.update(n[1])
    for form, vs in st.ne.items():
        f += [(t.eq(form, t.Int(v)), False) for v in vs]
    if closed:
        f = [(t.subst(c, closed), v) for c, v in f]
    return [(c, v) for c, v in f if c.op != "int"]


def outside(facts, a, b):
    """facts about the results of calls outside the program: any result is possible, unless the
    compared terms speak of the same call"""
    inab = {y for x in (a, b) for y in t.atoms(x, lambda y: y.op == "ev" or y.op == "call" and y.a[0] == "capacity")}
    memo = {}

    def base(y):
        while y.op in ("discr", "vfld", "fld", "hav") and isinstance(y.a[0], T):
            y = y.a[0]
        return y

    def go(x):
        m = {}

        def walk(y):
            if isinstance(y, tuple):
                for z in y:
                    walk(z)
            elif isinstance(y, T):
                room = y.op == "call" and y.a[0] == "capacity"
                if room or y.op in ("ev", "discr", "vfld", "fld") and base(y).op == "ev":
                    if room and y not in inab or not room and base(y) not in inab:
                        s = memo.get(y)
                        if s is None:
                            s = memo[y] = t.mk("sym", "outside", y.id)
                            t.settype(s, "u64" if room else y.ty or "u8")
                        m[y] = s
                    return
                for z in y.a:
                    walk(z)

        walk(x)
        return t.subst(x, m) if m else x

    return [(go(c), v) for c, v in facts]


def decoded(y):
    """the text decoded from a sequence of characters"""
    while y.op == "at":
        y = y.a[0]
    return y if y.op == "call" and isinstance(y.a[0], str) and y.a[0].startswith("String::from_utf") else None


LIBRARY = ("concat", "join", "to_string", "format", "fmtargs", "pread?", "capacity")


def foreign(a, b):
    """results of library functions without a model, in one of two compared values only: may well be the other"""
    if a.op == "int" or b.op == "int":
        return
    sized = {decoded(y.a[0]) for z in (a, b) for y in t.atoms(z, lambda y: y.op == "len")}
    fs = [{y.a[0] for y in t.atoms(z, lambda y: y.op == "call" and isinstance(y.a[0], str) and ("::" in y.a[0] or y.a[0] in LIBRARY) and y not in sized)} for z in (a, b)]
    if fs[0] != fs[1]:
        raise Opaque("result of %s" % ", ".join(sorted(fs[0] ^ fs[1])))


def compare(st, a, b, tries=400, phis=False, first=None, extra=()):
    """'differ' (with witness) or 'unknown' for two terms of different normal form on a path.
    first: the initial values of loop variables - what holds of them on a path that goes through
    the loop's head once is a possible execution of that path"""
    try:
        facts = path_facts(st)
        if first:
            for _ in range(4):
                facts = [(t.subst(c, first), v) for c, v in facts]
                a, b = t.subst(a, first), t.subst(b, first)
            facts += extra
            if any(c.op == "int" and bool(c.a[0]) != v for c, v in facts):
                return "unknown", "not on the first round"
            facts = [(c, v) for c, v in facts if c.op != "int"]
        foreign(a, b)
        facts = outside(facts, a, b)
        if b.op == "int" and b.a[0] in (0, 1) and a.op in ("lt0", "eq0", "not"):
            facts = facts + [(a, b.a[0] == 0)]
        r = differ(a, b, relevant(facts, a, b), tries, phis=phis)
    except Opaque as e:
        return "unknown", "term with unknown part: %s" % e
    if r is None:
        return "unknown", "normal forms differ, no distinguishing input found"
    w, x, y = r
    return "differ", "for %s: %s instead of %s" % (", ".join("%s=%s" % kv for kv in list(w.items())[:8]), x, y)
