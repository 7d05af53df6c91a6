"""Key streams. For every key state (each implementation of the trait): after extending it to a
length it answers that it has that length; the bytes it had keep their place and value; the
bytes added follow from the key and the block before them only (the loop is closed by induction over
its counter: a turn writes one block at the counter, made of the block before it, and nothing below);
decrypting is XOR with the byte of the stream at the same place; after the key is replaced nothing of
the old state is left. Every call of decrypt in the crate is then taken with the paths that lead to it:
the state must have been extended to, or asked for, the length of the data before. A key is only
replaced in states just made, or in the file's own state and only after a fresh one was made for it."""
import re

from absint import linear, witness

from .c06 import real
from .c19 import lockstep
from .lib import *

FLOOR = 14
D = "util::string_decryptor::Decryptor"
BLOCKS = mk("sym", "blocks", 0)
t.settype(BLOCKS, "usize")
J = mk("sym", "j", 0)
t.settype(J, "usize")
BIG = 1 << 47


def check(ck):
    P = ck.prog()
    types = sorted({b.path.split(" as ")[0][1:] for b in P.bodies if " as %s>::decrypt_slice" % D in b.path and b.kind == "fn"})
    ck.expect("key states", len(types) >= 2, D, "the implementations of the key state are not found: %s" % types)
    for ty in types:
        ck.guard("%s: extending" % ty, extending, ck, ty)
        ck.guard("%s: decrypting" % ty, decrypting, ck, ty)
        ck.guard("%s: replacing the key" % ty, replacing, ck, ty)
    ck.guard("uses", uses, ck)
    ck.guard("key replacements", replacements, ck)


def method(ck, ty, name):
    return ck.fn("<%s as %s>::%s" % (ty, D, name))


def aes(c):
    """AES over whole blocks with PKCS#7 padding: one block more than the input, or an error when it does not fit"""
    I = c.I
    key, data = I.content(c.st, c.args[0]), c.load(c.args[1])
    out = c.load(c.args[2])
    n = c.st.known(I.seqlen(data))
    if n is None or n > 64:
        raise Undecided("the length %s of an encrypted input is not known" % sh(I.seqlen(data)))
    full = (n // 16 + 1) * 16
    bs = []
    for i in range(full):
        blk = I.subseq(c.st, data, Int(i // 16 * 16), Int(16)) if i < n // 16 * 16 else mk("call", "padding", (data,))
        bs.append(t.settype(mk("call", "aes-byte", (key, blk, Int(i % 16))), "u8"))
    res = []
    m = I.seqlen(out)
    for st in I.assume_all(c.st.fork(), t.lt(m, Int(full)), True):
        res.append(("ret", st, t.err(mk("sym", "pad-error", 0))))
    for st in I.assume_all(c.st, t.lt(m, Int(full)), False):
        r, p = I.target(c.args[2])
        I.store(st, r, p + (("ss", ZERO, Int(full)),), t.array(bs))
        res.append(("ret", st, t.ok(mk("sym", "encrypted", 0))))
    return res


MODELS = {"aes::cipher::BlockEncryptMut::encrypt_padded_b2b_mut": aes}


def stream_field(ck, ty):
    """the field that holds the stream, when it is one that can grow"""
    a = ck.prog().adts[ty]
    for i, (name, fty, _) in enumerate(a["variants"][0]["fields"]):
        if "vec::Vec<u8>" in ck.prog().ts(fty):
            return i
    return None


def start(ck, ty, name, empty, args=None):
    c = ck.ctx(method(ck, ty, name), opaque=MODELS, args=args)
    k = stream_field(ck, ty)
    old = None
    if k is not None:
        if empty:
            old = mk("empty")
        else:
            s = mk("sym", "stream", 0)
            old = mk("sub", s, ZERO, t.mulc(BLOCKS, 16))
            c.assume(t.le(ONE, BLOCKS))
            c.assume(t.le(t.mulc(BLOCKS, 16), Int(BIG)))
            c.assume(t.le(t.mulc(BLOCKS, 16), c.len(s)))
        c.store(c.a[0], (("f", k),), old)
    return c, k, old


# ------------------------------------------------------------ extending
def extending(ck, ty):
    for empty in (True, False):
        c, k, old = start(ck, ty, "ensure_key_size", empty)
        c.assume(t.le(c.a[1], Int(BIG)))
        label = "%s: extending %s stream" % (ty, "an empty" if empty else "a")
        before = [c.I.load(c.st, *c.I.target(c.a[0]))]

        def f(o):
            if not possible(o):
                return None
            if o.is_err():
                d, why = tell_apart(o, J, t.add(J, ONE))
                if d == "differ":
                    return "extending fails with %s" % sh(o.ret)
                raise Undecided("extending fails with %s?" % sh(o.ret))
            now = o.ctx.I.load(o.st, *o.ctx.I.target(c.a[0]))
            m = enough(ck, ty, o, now, c.a[1])
            if m or k is None:
                return m
            for i in range(len(ck.prog().adts[ty]["variants"][0]["fields"])):
                if i != k and not o.same(c.I.proj(o.st, now, ("f", i)), c.I.proj(o.st, before[0], ("f", i))):
                    raise Undecided("extending changes field %d of the state" % i)
            new = o.st.deep(c.I.proj(o.st, now, ("f", k)))
            return None if o.same(new, old) else grown(ck, ty, o, c, old, new, before[0], empty)

        ck.case(label, c, f)
        if k is None:
            break


def related(o):
    """the facts of a path, with what the counters of its loops have to do with one another: each has
    been moved by its step as often as the others"""
    s = o.st.fork()
    for k, lp in enumerate(loops(o)):
        m = mk("sym", "turns", k)
        t.settype(m, "usize")
        for p in lp.steps:
            if not lp.steps[p] or not isinstance(lp.init[p], t.T):
                continue
            ds = {t.sub(unwrapped(x), p) for x in lp.steps[p]}
            d = ds.pop()
            if not ds and d.op == "int":
                if not s.assume(t.eq(p, t.add(unwrapped(lp.init[p]), t.mulc(m, d.a[0]))), True):
                    return None
    return s


def possible(o):
    s = related(o)
    return s is not None and not linear.contradiction(s)


def enough(ck, ty, o, now, n):
    """asked afterwards, the state has the length"""
    q = State_of(o)
    d = follow(ck, o, "<%s as %s>::is_enough" % (ty, D), [(now,), n])
    for x in d.run():
        if x.kind != "ret":
            raise Undecided("asking for the length panics")
        m = shown(x, x.ret, "extended to a length, the state does not have it")
        if m:
            return m
    return None


def State_of(o):
    return o.st


def below(st, I, v, j, phi, lp):
    """v[j] is phi[j]"""
    return st.deep(I.elem(st, v, j)) is I.elem(st, phi, j)


def grown(ck, ty, o, c, old, new, self0, empty):
    I = o.ctx.I
    n0 = I.seqlen(old)
    lps = [lp for lp in loops(o)]
    total = I.seqlen(new)
    if not lps:
        # no more blocks than the first
        for i in range(o.st.known(total) or 0):
            m = first_block(ck, ty, o, c, new, i, self0) if empty else None
            if m:
                return m
        if o.st.known(total) is not None and empty:
            return None
        m = shown(o, t.le(n0, total), "bytes of the stream are dropped")
        if m:
            return m
        s = o.st.fork()
        if not s.assume(t.lt(J, n0), True) or I.elem(s, new, J) is I.elem(s, old, J):
            if o.same(total, n0):
                return None
        raise Undecided("the stream becomes %s" % sh(new))
    if len(lps) != 1:
        raise Undecided("%d loops extend the stream" % len(lps))
    lp = lps[0]
    phi = next((p for p in lp.init if t.contains(new, lambda y: y is p) and p in lp.init and any(x.op in ("ssupd", "iupd") for x in lp.steps[p])), None)
    if phi is None:
        raise Undecided("the loop does not write the stream")
    # the counter: the place a turn writes at, taken on by one block
    ctr = None
    for p in lp.init:
        if lp.steps[p] and all(o2.simp(x) is o2.simp(t.add(p, Int(16))) or same_in(o2, x, t.add(p, Int(16))) or unwrapped(x) is t.add(p, Int(16)) for o2, x in zip(lp.backs, lp.steps[p])):
            ctr = p
    if ctr is None:
        raise Undecided("the loop has no counter of blocks")
    i0 = o.st.simp(lp.init[ctr])
    first = lp.init[phi]
    # before the loop
    s = o.st.fork()
    start_at = n0 if not empty else Int(16)
    m = want_eq(o, i0, start_at, "the first byte added")
    if m:
        return m
    if empty:
        for i in range(16):
            m = first_block(ck, ty, o, c, first, i, self0)
            if m:
                return m
    else:
        s = o.st.fork()
        if s.assume(t.lt(J, n0), True) and not same_in(s, I.elem(s, first, J), I.elem(s, old, J)):
            k, why = witness.compare(s, I.elem(s, first, J), I.elem(s, old, J))
            if k == "differ":
                return "a byte of the stream changes when it is extended\n    %s" % why
            raise Undecided("a byte of the stream before the loop: %s" % why)
    # a turn
    for b, step in zip(lp.backs, lp.steps[phi]):
        s = b.fork()
        s.assume(t.le(i0, ctr), True)
        s.assume(t.eq(I.seqlen(phi), I.seqlen(first)), True)
        z = s.fork()
        if z.assume(t.lt(J, ctr), True):
            x = z.deep(I.elem(z, step, J))
            if x is not I.elem(z, phi, J):
                k, why = witness.compare(z, x, I.elem(z, phi, J), phis=True)
                if k == "differ":
                    return "a turn changes a byte already produced\n    %s" % why
                raise Undecided("a byte below the counter becomes %s: %s" % (sh(x), why))
        for i in range(16):
            x = s.deep(I.elem(s, step, t.add(ctr, Int(i))))
            key = key_of(x)
            if key is None:
                raise Undecided("the byte %d of a block is %s" % (i, sh(x)))
            if t.contains(key, lambda y: y is old or y is c.a[1] or y.op == "phi"):
                raise Undecided("the key is %s" % sh(key))
            if x.a[1][2] is not Int(i):
                return "the byte %d of a block is byte %s of an encrypted one" % (i, sh(x.a[1][2]))
            for k in range(16):
                a, b = s.deep(I.elem(s, x.a[1][1], Int(k))), s.deep(I.elem(s, phi, t.add(ctr, Int(k - 16))))
                if not same_in(s, a, b):
                    if a.op == b.op == "elem" and a.a[0] is b.a[0] and same_in(s, a.a[1], b.a[1]):
                        continue
                    if a.op == b.op == "elem" and a.a[0] is b.a[0]:
                        d, why = witness.compare(s, a.a[1], b.a[1], first={ctr: t.add(i0, Int(16))}, phis=True)
                    else:
                        d, why = witness.compare(s, a, b, phis=True)
                    if d == "differ":
                        return "a block is not made of the one before it: byte %d of what is encrypted is %s\n    %s" % (k, sh(a), why)
                    raise Undecided("byte %d of what is encrypted to a block is %s: %s" % (k, sh(a), why))
    # after the loop: what is kept was written, nothing that was there is dropped
    m = shown(o, t.le(start_at, total), "bytes of the stream are dropped")
    if m:
        return m
    s = related(o)
    if linear.implied(s, t.le(total, ctr)) is not True:
        d, why = witness.compare(s, t.lt(ctr, total), FALSE, phis=True)
        if d == "differ":
            return "the blocks end before the stream does: it ends with bytes that were never produced\n    %s" % why
        raise Undecided("the blocks end before the stream does? %s" % why)
    if not o.same(t.rem(total, Int(16)), ZERO):
        m = want_eq(o, t.rem(total, Int(16)), ZERO, "the length of the last block")
        if m:
            return m
    z = o.st.fork()
    if z.assume(t.lt(J, total), True):
        x = z.deep(I.elem(z, new, J))
        if x is not I.elem(z, phi, J):
            k, why = witness.compare(z, x, I.elem(z, phi, J), phis=True)
            if k == "differ":
                return "a byte of the stream is not where it was produced\n    %s" % why
            raise Undecided("the stream is %s after the loop" % sh(new))
    return None


def unwrapped(x):
    return x.a[0] if x.op == "wrap" else x


def key_of(x):
    return x.a[1][0] if x.op == "call" and x.a[0] == "aes-byte" else None


def first_block(ck, ty, o, c, seq, i, self0):
    """the first block is made of the key and the initialisation vector, four bytes repeated"""
    x = o.st.deep(o.ctx.I.elem(o.st, seq, Int(i)))
    key = key_of(x)
    if key is None:
        raise Undecided("the first block has %s" % sh(x))
    iv = o.ctx.I.proj(o.st, self0, ("f", ck.fi(ty, "iv")))
    blk = t.array([o.ctx.I.elem(o.st, iv, Int(k % 4)) for k in range(16)])
    for k in range(4):
        t.settype(o.ctx.I.elem(o.st, iv, Int(k)), "u8")
    for k in range(16):
        m = want_eq(o, o.ctx.I.elem(o.st, x.a[1][1], Int(k)), blk.a[1][k], "the byte %d encrypted to the first block" % k)
        if m:
            return m
    if x.a[1][2] is not Int(i):
        return want_eq(o, x.a[1][2], Int(i), "the place of byte %d in the first block" % i)
    return None


# ------------------------------------------------------------ decrypting
def decrypting(ck, ty):
    n = mk("sym", "data-length", 0)
    t.settype(n, "usize")
    for empty in (True, False):
        c, k, old = start(ck, ty, "is_enough", empty, args=[None, n])
        c.assume(t.le(n, Int(BIG)))
        what = "%s: decrypting with %s stream" % (ty, "an empty" if empty else "a")
        done = []
        for o in c.run():
            if o.kind != "ret":
                raise Undecided("asking for the length panics")
            if o.st.decide(o.ret) is False or not o.st.assume(o.ret, True):
                continue
            done.append(o)
        if not done:
            raise Undecided("the state never has the length")
        for i, q in enumerate(done):
            data = mk("sym", "data", 0)
            data = mk("sub", data, ZERO, n)
            me = q.ctx.I.load(q.st, *q.ctx.I.target(q.ctx.a[0]))
            d = follow(ck, q, "<%s as %s>::decrypt_slice" % (ty, D), [(me,), (data,)])

            def f(o):
                out = o.st.deep(o.ctx.I.load(o.st, *o.ctx.I.target(o.ctx.a[1])))
                m = want_eq(o, o.ctx.I.seqlen(out), n, "the length of the data")
                if m:
                    return m
                s = o.st
                if not s.assume(t.lt(J, n), True):
                    return None
                g = follow(ck, o, "<%s as %s>::at" % (ty, D), [(me,), J], MODELS)
                for x in g.run():
                    if x.kind != "ret":
                        k2, why = tell_apart(x, J, t.add(J, ONE))
                        if k2 == "differ":
                            return "the stream has no byte where the data has\n    %s" % why
                        raise Undecided("asking for a byte of the stream panics?")
                    a, b = o.ctx.I.elem(s, data, J), x.content(x.ret)
                    while b.op == "at":
                        b = b.a[0]
                    t.settype(a, "u8")
                    t.settype(b, "u8")
                    m = want_eq(x, o.ctx.I.elem(s, out, J), t.bitop("bxor", [a, b]), "the byte j of the data")
                    if m:
                        return m
                return None

            for x in d.run():
                if real(x) and not inside_loop(x) and not linear.contradiction(x.st):
                    e, why = tell_apart(x, J, t.add(J, ONE))
                    if e == "differ":
                        ck.bad("%s, %d" % (what, i), d.where(), "the state says it has the length, but decrypting panics\n    %s" % why)
                        break
                    raise Undecided("decrypting panics? %s" % x.pathdesc()[:200])
            else:
                ck.case("%s, %d" % (what, i), d, f)
        asking(ck, ty, empty, what)
        if k is None:
            break


def inside_loop(o):
    """facts about a turn of a loop: how its counters relate is only known once it is closed"""
    return any(t.contains(f, lambda y: y.op == "phi") for f in o.st.bounds)


def asking(ck, ty, empty, what):
    """a byte of the stream can be asked for at any place: it is extended to have it"""
    c, k, old = start(ck, ty, "at", empty)
    c.assume(t.le(c.a[1], Int(BIG)))
    ext = mk("sym", "extended", 0)

    def ensure(e):
        r, p = e.I.target(e.args[0])
        e.st.assume(t.le(e.args[1], e.I.seqlen(ext)), True)
        if k is not None:
            e.I.store(e.st, r, p + (("f", k),), ext)
        return e.ret(t.ok(UNIT))

    c.I.opaque["<%s as %s>::ensure_key_size" % (ty, D)] = ensure
    outs = c.run()
    for x in outs:
        if real(x) and not inside_loop(x) and not linear.contradiction(x.st):
            e, why = tell_apart(x, J, t.add(J, ONE))
            if e == "differ":
                ck.bad(what + ": asking for a byte", c.where(), "the stream is not extended to have the byte asked for\n    %s" % why)
                return
            raise Undecided("asking for a byte of the stream panics? %s" % x.pathdesc()[:200])
    ck.ok(what + ": asking for a byte", c.where())


# ------------------------------------------------------------ replacing the key
def replacing(ck, ty):
    c, k, old = start(ck, ty, "set_iv", False)
    before = c.I.load(c.st, *c.I.target(c.a[0]))
    fields = ck.prog().adts[ty]["variants"][0]["fields"]

    def f(o):
        now = o.ctx.I.load(o.st, *o.ctx.I.target(c.a[0]))
        for i, fd in enumerate(fields):
            was, is_ = o.ctx.I.proj(o.st, before, ("f", i)), o.st.deep(o.ctx.I.proj(o.st, now, ("f", i)))
            if i == k:
                m = want_eq(o, o.ctx.I.seqlen(is_), ZERO, "the length of the stream under a new key")
                if m:
                    return m
                continue
            if is_ is was:
                if fd[0] in ("iv", "without_decrypt", "keys", "enc_type"):
                    return "the field %s still is that of the previous key" % fd[0]
                if fd[0] == "aes_key":
                    continue
                raise Undecided("the field %s is kept" % fd[0])
            m = re.match(r"\[\w+; (\d+)\]$", ck.prog().ts(fd[1]))
            n = int(m.group(1)) if m else None
            if n is not None and is_.op in ("iupd", "ssupd", "agg"):
                for j in range(n):
                    x = o.st.deep(o.ctx.I.elem(o.st, is_, Int(j)))
                    if t.contains(x, lambda y: y is was):
                        if fd[0] in ("iv", "keys") and x.op == "elem" and x.a[0] is was:
                            return "byte %d of the field %s still depends on the previous key: %s" % (j, fd[0], sh(x))
                        raise Undecided("byte %d of the field %s: %s" % (j, fd[0], sh(x)))
                continue
            if is_.op == "upd" or t.contains(is_, lambda y: y is was):
                old_parts = [y for y in t.atoms(is_, lambda y: y.op == "elem" and y.a[0] is was)]
                if fd[0] in ("iv", "keys") and old_parts:
                    return "the field %s still has %s of the previous key" % (fd[0], sh(old_parts[0]))
                raise Undecided("the field %s depends on the previous key: %s" % (fd[0], sh(is_)))
        return None

    ck.case("%s: replacing the key" % ty, c, f)


# ------------------------------------------------------------ uses
LENGTHS = {}


def length_of(root):
    """how long the stream of that state is: it only grows"""
    x = mk("sym", "stream-length of " + sh(root), 0)
    return t.settype(x, "usize")


def use_models(ck):
    def note(c, cond, what):
        ok = c.st.decide(cond)
        c.I.event(c.st, "use", (TRUE if ok is True else FALSE, cond), c.span)

    def enough(c):
        # the length here is the one the stream has in the end: it may still be shorter now
        no = c.st.fork()
        c.st.assume(t.le(c.args[1], length_of(keyroot(c.I, c.args[0]))), True)
        return [("ret", c.st, TRUE), ("ret", no, FALSE)]

    def ensure(c):
        bad = c.st.fork()
        c.st.assume(t.le(c.args[1], length_of(keyroot(c.I, c.args[0]))), True)
        return [("ret", c.st, t.ok(UNIT)), ("ret", bad, t.err(mk("sym", "key-error", 0)))]

    def dec(c):
        root, seq = keyroot(c.I, c.args[0]), c.load(c.args[1])
        note(c, t.le(c.I.seqlen(seq), length_of(root)), "decrypt")
        c.storep(c.args[1], mk("xf", "dec", root, seq))
        return c.ret(UNIT)

    def try_at(c):
        root = keyroot(c.I, c.args[0])
        note(c, t.lt(c.args[1], length_of(root)), "try_at")
        b = t.settype(mk("call", "key-byte", (root, c.args[1])), "u8")
        return c.ret(t.some(mk("cref", b)))

    return {DECR + "is_enough": enough, DECR + "ensure_key_size": ensure, DECR + "decrypt_slice": dec, DECR + "try_at": try_at}


USES = ("decrypt_slice", "try_at", "at")


def calls_of(b):
    for bl in b.blocks:
        x = bl["t"] if isinstance(bl, dict) else bl
        tm = bl.get("term") if isinstance(bl, dict) else None
        yield x if tm is None else tm


def users(ck):
    """functions (closures: the function around them) that use a stream through the trait"""
    from .c22 import fnrefs

    P = ck.prog()
    res = {}
    for b in P.bodies:
        if (" as %s>" % D) in b.path or b.path.startswith("util::string_decryptor::"):
            continue
        for r in fnrefs(b):
            n = r[1]
            m = n.rsplit("::", 1)[-1]
            if m in USES and (n.startswith(D + "::") or (" as %s>" % D) in n):
                res.setdefault(b.path.split("::{closure")[0], set()).add(m)
    return res


def all_uses(trace, st):
    for e in trace:
        if e.r[0] == "loop":
            for b in e.r[1].backs:
                for x in all_uses(b.trace, lockstep(e.r[1], b)):
                    yield x
        elif e.r[0] == "call" and e.r[1] == "use":
            yield e, st


def uses(ck):
    from .c22 import fnrefs

    P = ck.prog()
    todo = sorted(users(ck))
    ck.expect("users", len(todo) >= 3, D, "the users of key streams are not found: %s" % todo)
    seen = set()
    while todo:
        fn = todo.pop(0)
        if fn in seen:
            continue
        seen.add(fn)
        up = ck.guard("uses in %s" % fn, use, ck, fn)
        if up == "callers":
            callers = sorted({b.path.split("::{closure")[0] for b in P.bodies if any(r[1] == fn for r in fnrefs(b))})
            if not callers:
                ck.unsure("uses in %s" % fn, "covered only if its callers extend the stream")
            todo += callers


def use(ck, fn):
    c = ck.ctx(fn, opaque=use_models(ck))
    outs = c.run()
    ck.funcs |= c.I.inlined
    n = 0
    bad = None
    for o in outs:
        if o.kind != "ret":
            continue
        for e, st in all_uses(o.st.trace, o.st):
            n += 1
            if e.r[2][0] is TRUE or linear.implied(st, e.r[2][1]) is True:
                continue
            bad = bad or (o, st, e)
    if not n:
        raise Undecided("no use of a stream is reached")
    if bad:
        o, st, e = bad
        cond = e.r[2][1]
        # the length may be promised by the callers: a parameter the function is handed
        P = ck.prog()
        k, why = witness.compare(st, cond, TRUE, phis=True)
        if k != "differ":
            raise Undecided("%s? %s" % (sh(cond), why))
        from .c22 import fnrefs
        called = any(r[1] == fn for b in P.bodies for r in fnrefs(b))
        ints = [y for y in t.atoms(cond, lambda y: y.op == "arg" or y.op == "sym")]
        if called and lifted(c, cond):
            return "callers"
        ck.bad("uses in %s" % fn, c.where(), "a stream is used that may be shorter: %s\n    %s\n    path: %s" % (sh(cond), why, o.pathdesc()))
        return None
    ck.ok("uses in %s" % fn, "%d uses" % n)
    return None


def lifted(c, cond):
    """the stream was extended to a length the caller gave: only the caller knows how it relates to the data"""
    return any(t.contains(x, lambda y: y in c.a) for x in [cond]) and any(a.ty == "usize" for a in c.a if isinstance(a, t.T))


# ------------------------------------------------------------ who replaces keys
F, FM, WR = "file::WzFile", "file::WzFileMeta", "reader::WzBaseReader"


def replacements(ck):
    from .c22 import fnrefs

    P = ck.prog()
    who = set()
    for b in P.bodies:
        for r in fnrefs(b):
            n = r[1]
            if n.rsplit("::", 1)[-1] == "set_iv" and (n.startswith(D + "::") or (" as %s>" % D) in n):
                who.add(b.path.split("::{closure")[0])
    # a function that is handed no state and no file can only replace the key of a state it makes itself
    shared = sorted(f for f in who if not made_here(ck, f))
    reach = {}
    for f in shared:
        reach[f] = above(P, f)
    parse = F + "::parse"
    for f in shared:
        if f != parse and parse not in reach[f]:
            ck.unsure("replacing in %s" % f, "not reached from the parse of a file")
    if any(f == parse or parse in reach[f] for f in shared):
        ck.guard("replacing during parse", parsing, ck)
        ck.guard("the state of a file whose key is not known", opening, ck)


def above(P, fn):
    from .c22 import fnrefs

    up, todo = set(), [fn]
    while todo:
        f = todo.pop()
        for b in P.bodies:
            p = b.path.split("::{closure")[0]
            if p not in up and any(r[1] == f or r[0] == f for r in fnrefs(b)):
                up.add(p)
                todo.append(p)
    return up


def made_here(ck, fn):
    """every state it replaces the key of is one it made"""
    seen = []

    def put(c):
        r, p = c.I.target(c.args[0])
        seen.append(r)
        return c.ret(UNIT)

    try:
        c = ck.ctx(fn, opaque=dict([(D + "::set_iv", put)] + [("<%s as %s>::set_iv" % (ty, D), put) for ty in impls(ck)]))
        c.run()
    except Exception:
        return False
    return bool(seen) and all(r.op in ("loc", "heap", "local") for r in seen)


def impls(ck):
    return sorted({b.path.split(" as ")[0][1:] for b in ck.prog().bodies if " as %s>::decrypt_slice" % D in b.path and b.kind == "fn"})


def parsing(ck):
    """the key of a file's state is replaced only while the key of the file is not known, and it is the state of that file"""
    from .c15 import setup

    for known in (True, False):
        replacing_in_parse(ck, setup(ck, "V2", None), known)


def replacing_in_parse(ck, c, known):
    del c.I.opaque[F + "::update_keys"]

    def put(k):
        k.I.event(k.st, "set_iv", (keyroot(k.I, k.args[0]),), k.span)
        return k.ret(UNIT)

    for n in [D + "::set_iv"] + ["<%s as %s>::set_iv" % (ty, D) for ty in impls(ck)]:
        c.I.opaque[n] = put
    flag = c.I.proj(c.st, c.meta0, ("f", ck.fi(FM, "string_decryptor_verified")))
    t.settype(flag, "bool")
    c.assume(flag, known)
    r, p = c.I.target(c.fld(c.a[0], ck.fi(F, "reader")))
    own = c.I.proj(c.st, c.I.load(c.st, r, p), ("f", ck.fi(WR, "pkg2_keys")))
    own = c.I.target(own)[0]
    n = []

    def f(o):
        for root in replaced(o.st.trace):
            n.append(root)
            if known:
                return "the key of a state is replaced although it is known (the state may be that of other files)"
            if not t.contains(root, lambda y: y is own):
                if t.atoms(root, lambda y: y.op == "static"):
                    return "the key of a state shared between files is replaced: %s" % sh(root)
                raise Undecided("the key of %s is replaced" % sh(root))
        return None

    ck.case("replacing during parse, key %s" % ("known" if known else "not known"), c, f)
    if not known and not n:
        raise Undecided("no key is replaced")


def replaced(trace):
    for e in trace:
        if e.r[0] == "loop":
            for b in e.r[1].backs:
                for x in replaced(b.trace):
                    yield x
        elif e.r[0] == "call" and e.r[1] == "set_iv":
            yield e.r[2][0]


def opening(ck):
    W = "util::string_decryptor::"
    ok = lambda c: [("ret", c.st.fork(), t.ok(UNIT)), ("ret", c.st, t.err(mk("sym", "not-the-key", 0)))]
    guess = lambda c: [("ret", c.st.fork(), t.some(mk("sym", "guessed-keys", 0))), ("ret", c.st, t.NONE)]
    c = ck.ctx(F + "::from_file", opaque={W + "verify_decryptor_from_wz_file": ok, W + "guess_decryptor_from_wz_file": guess})
    n = []

    def f(o):
        if not o.is_ok():
            return None
        I, v = o.ctx.I, o.okval()
        flag = I.proj(o.st, I.proj(o.st, v, ("f", ck.fi(F, "wz_file_meta"))), ("f", ck.fi(FM, "string_decryptor_verified")))
        if o.st.decide(flag) is True:
            return None
        if o.st.decide(flag) is None:
            raise Undecided("is the key known? %s" % sh(flag))
        r, p = I.target(I.proj(o.st, v, ("f", ck.fi(F, "reader"))))
        rd = I.load(o.st, r, p)
        roots = [I.target(I.proj(o.st, rd, ("f", ck.fi(WR, x))))[0] for x in ("pkg2_keys", "keys")]
        n.append(o)
        if roots[0] is roots[1]:
            return "the state whose key will be replaced is also the one strings are decrypted with"
        if roots[0].op == "heap":
            return None
        for y in t.atoms(roots[0], lambda y: y.op in ("static", "arg") or y.op == "sym" and y.a[0] == "guessed-keys"):
            return "the state whose key will be replaced is not one of this file alone: %s" % sh(roots[0])
        raise Undecided("the state is %s" % sh(roots[0]))

    ck.case("the state of a file whose key is not known", c, f)
    if not n:
        raise Undecided("no file is opened without its key")
