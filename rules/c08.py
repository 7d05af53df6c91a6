"""Regions in which a shared key state is locked for writing. Every function that holds such a lock
is interpreted; a path that ends in a panic while the lock is held is the violation (the lock would be
poisoned, and every later read through that key state would fail). The methods of the key state are
calls there; each implementation of a method that is called is interpreted by itself, for every
state and every length up to 2^47: it must not panic, and when it can report an error so can the call.
Loops are closed over their counters and the lengths they keep. A panic is a violation when values
are found that lead to it."""
from absint import linear
from absint import models as M

from . import c09
from .c22 import fnrefs
from .lib import *

FLOOR = 10
D = c09.D
J = c09.J
BIG = c09.BIG
ASSUMPTIONS = ["no allocation of up to 2^47 bytes fails", "no sequence in memory is longer than 2^47, and no key stream is extended beyond that"]


def check(ck):
    P = ck.prog()
    types = sorted({b.path.split(" as ")[0][1:] for b in P.bodies if " as %s>::decrypt_slice" % D in b.path and b.kind == "fn"})
    ck.expect("key states", len(types) >= 2, D, "the implementations of the key state are not found: %s" % types)
    holders = sorted({b.path.split("::{closure")[0] for b in P.bodies if holds(P, b)})
    used, may_fail = {}, {}
    todo, done = list(holders), set()
    while todo:
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        callers = sorted({b.path.split("::{closure")[0] for b in P.bodies if any(r[1] == f or r[0] == f for r in fnrefs(b))} - {f})
        # what a private function needs is up to its callers
        lift = bool(callers) and not any(b.j.get("reach") for b in P.bodies if b.path == f)
        if ck.guard("locked in %s" % f, region, ck, f, used, types, may_fail, lift) == "callers":
            todo += callers
    ck.expect("functions that lock a key state", bool(used), "src", "no function was found that locks a key state for writing")
    for m in sorted(set(used) - {"decrypt_slice"}):
        for ty in types:
            ck.guard("%s of %s" % (m, ty), method, ck, ty, m)


def holds(P, b):
    return not b.path.startswith("std::") and any("RwLockWriteGuard" in P.ts(l[0]) and "Decryptor" in P.ts(l[0]) for l in b.locals)


# ------------------------------------------------------------ what a panic needs
def invariants(o):
    """the facts of a path with those of its loops: counters, and lengths that no turn changes"""
    s = c09.related(o)
    if s is None:
        return None
    I = o.ctx.I
    for lp in loops(o):
        for p in lp.init:
            v = lp.init[p]
            if not lp.steps[p] or not isinstance(v, t.T):
                continue
            if not any(x.op in ("ssupd", "iupd", "push", "cat", "sub", "resized") for x in lp.steps[p]):
                continue
            if all(I.seqlen(x) is I.seqlen(p) or same_in(b, I.seqlen(x), I.seqlen(p)) for b, x in zip(lp.backs, lp.steps[p])):
                if not s.assume(t.eq(I.seqlen(p), I.seqlen(v)), True):
                    return None
    return s


def debug_check(o):
    why = o.info[0]
    return why[0] == "assert" and why[1] == "other"


def feasible(o):
    """None: no; (True, why): with these values; (False, why): not known"""
    if o.kind != "panic" or debug_check(o):
        return None
    for x in t.atoms(tuple(o.st.bounds) + tuple(o.st.facts), lambda y: y.op == "len"):
        if not o.st.assume(t.le(x, Int(BIG)), True):
            return None
    s = invariants(o)
    if s is None or linear.contradiction(s):
        return None
    d, why = tell_apart(o, J, t.add(J, ONE))
    if d == "differ":
        return True, why
    return False, why


def what(o):
    return "%s at %s:%s" % (o.info[0][1], o.info[0][2][0], o.info[0][2][1])


# ------------------------------------------------------------ the methods
def method(ck, ty, m):
    und = None
    n = 0
    for empty in (True, False):
        c, k, old = c09.start(ck, ty, m, empty)
        bound(ck, c)
        for o in c.run():
            n += 1
            r = feasible(o)
            if r is None:
                continue
            if r[0]:
                ck.bad("%s of %s" % (m, ty), c.where(), "it panics (%s), and it is called while the state is locked for writing\n    %s" % (what(o), r[1]))
                return
            und = "%s?  %s" % (what(o), r[1])
        if k is None:
            break
    if und:
        raise Undecided(und)
    ck.ok("%s of %s" % (m, ty), "%d paths" % n)


def bound(ck, c):
    for i, x in enumerate(c.a):
        ty = ck.prog().ts(c.body.locals[i + 1][0])
        if ty == "usize":
            c.assume(t.le(x, Int(BIG)))
        elif ty in ("&str", "&[u8]", "&mut [u8]", "&mut str"):
            try:
                c.assume(t.le(c.len(c.seq(x)), Int(BIG)))
            except Exception:
                pass


def fails(ck, ty, m):
    """can it report an error?"""
    for empty in (True, False):
        c, k, old = c09.start(ck, ty, m, empty)
        bound(ck, c)
        for o in c.run():
            if o.kind == "ret" and o.is_err():
                s = invariants(o)
                if s is not None and not linear.contradiction(s):
                    return True
        if k is None:
            break
    return False


# ------------------------------------------------------------ the regions
def region(ck, f, used, types, may_fail, lift=False):
    called = {}

    def call(name):
        def m(c):
            called.setdefault(name, 0)
            called[name] += 1
            if name == "is_enough":
                return boolean(c, name)
            if name == "ensure_key_size":
                if name not in may_fail:
                    may_fail[name] = any(fails(ck, ty, name) for ty in types)
                c.I.event(c.st, "state:" + name, (c.args[1],), c.span)
                res = [("ret", c.st.fork(), t.ok(UNIT))]
                if may_fail[name]:
                    res.append(("ret", c.st, t.err(mk("call", "key-error", (c.args[1],)))))
                return res
            if name == "decrypt_slice":
                seq = c.load(c.args[1])
                c.I.event(c.st, "state:" + name, (seq,), c.span)
                c.storep(c.args[1], mk("xf", "dec", keyroot(c.I, c.args[0]), seq))
                return c.ret(UNIT)
            r = c.I.opaque_call(c, "state:" + name)
            return r

        return m

    def long_enough(o, e, asked):
        n = o.ctx.I.seqlen(o.st.deep(e.r[2][0]))
        asked = list(asked)
        for k in t.atoms(tuple(o.st.facts) + tuple(o.st.bounds), lambda y: y.op == "call" and y.a[0] == "key-enough"):
            if o.st.decide(k) is True:
                asked.append(k.a[1][1])
        if not asked:
            return "nothing has been asked of the stream before"
        und = None
        for a in asked:
            if o.st.decide(t.le(n, a)) is True or linear.implied(o.st, t.le(n, a)) is True:
                return None
            try:
                und = shown(o, t.le(n, a), "the stream has been extended to less than the length of the data")
            except Undecided:
                raise
        return und

    def boolean(c, name):
        v = mk("call", "key-enough", (keyroot(c.I, c.args[0]), c.args[1]))
        t.settype(v, "bool")
        c.I.event(c.st, "state:" + name, (c.args[1],), c.span)
        return c.ret(v)

    P = ck.prog()
    names = sorted({b.path.rsplit("::", 1)[1] for b in P.bodies if " as %s>::" % D in b.path and b.kind == "fn"})
    op = {D + "::" + n: call(n) for n in names}
    kinds = {}

    def lock(mode):
        def m(c):
            ty = c.self_ty or ""
            r = M.LOCK[mode](c)
            st = r[0][1] if isinstance(r, list) else c.st
            kinds[id(st.trace[-1])] = (ty, st.trace[-1])
            return r

        return m

    for mode in ("read", "write"):
        op["std::sync::RwLock::<T>::" + mode] = lock(mode)
    c = ck.ctx(f, opaque=op)
    bound(ck, c)
    n, und, seen = 0, None, 0
    for o in c.run():
        held, inside, asked = [], set(), []
        for e in o.st.trace:
            if e.r[0] == "lock":
                ty = kinds.get(id(e), ("",))[0]
                if e.r[1] == "w" and "Decryptor" in ty:
                    held.append(e.r[2])
                    seen += 1
            elif e.r[0] == "unlock" and e.r[2] in held:
                held.remove(e.r[2])
            elif e.r[0] == "call" and e.r[1].startswith("state:") and held:
                inside.add(e.r[1][6:])
                if e.r[1] == "state:decrypt_slice":
                    m = long_enough(o, e, asked)
                    if m and lift:
                        return "callers"
                    if m:
                        ck.bad("locked in %s" % f, "%s (%s)" % (f, e.span and "%s:%s" % tuple(e.span[:2])), "it decrypts while a key state is locked for writing, with a stream that is too short: that panics\n    %s" % m)
                        return
                elif e.r[1] == "state:ensure_key_size":
                    asked.append(e.r[2][0])
            elif e.r[0] == "loop":
                for b in e.r[1].backs:
                    for x in b.trace:
                        if x.r[0] == "call" and x.r[1].startswith("state:"):
                            inside.add(x.r[1][6:])
        for x in inside:
            used.setdefault(x, f)
        n += 1
        if not held:
            continue
        r = feasible(o)
        if r is None:
            continue
        if lift:
            return "callers"
        if r[0]:
            ck.bad("locked in %s" % f, "%s (%s:%s)" % (f, o.info[0][2][0], o.info[0][2][1]), "it can panic (%s) while a key state is locked for writing\n    %s" % (o.info[0][1], r[1]))
            return
        und = "%s while a key state is locked?  %s" % (what(o), r[1])
    ck.funcs |= c.I.inlined
    if und:
        raise Undecided(und)
    if not seen:
        raise Undecided("no path locks a key state")
    ck.ok("locked in %s" % f, "%d paths, %d acquisitions" % (n, seen))
