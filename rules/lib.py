"""Shared frame of the rules: obligations, cases of the abstract interpreter, reports."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from absint import terms as t
from absint.facts import Program
from absint.engine import Interp, State, Frame, TooComplex, Unsupported, mk, Int, ZERO, ONE, TRUE, FALSE, UNIT
from absint.models import lev
from . import build

U8, I8, U16, I16, U32, I32, U64, I64 = [(w // 8, s) for w in (8, 16, 32, 64) for s in (False, True)]


class Missing(Exception):
    """an anchor the rule needs is not in the program any more"""


class Check:
    def __init__(self, pid, thorough=False):
        self.pid = pid
        self.thorough = thorough
        self.progs = {}
        self.obl = []  # (label, status) status ok/bad/undecided
        self.viol = []  # (key, where, message)
        self.undecided = []
        self.funcs = set()
        self.samples = []
        self.assumptions = []
        self.stats = {}

    def prog(self, cfg="default"):
        if cfg not in self.progs:
            self.progs[cfg] = Program(build.facts(cfg))
        return self.progs[cfg]

    # ------------------------------------------------------------ results
    def ok(self, label, sample=None):
        self.obl.append((label, "ok"))
        if sample is not None and len(self.samples) < 12:
            self.samples.append({"obligation": label, "decided": str(sample)[:400]})

    def bad(self, key, where, msg):
        self.obl.append((key, "bad"))
        self.viol.append((key, where, msg))

    def unsure(self, label, why):
        self.obl.append((label, "undecided"))
        self.undecided.append((label, why))

    def expect(self, key, cond, where, msg, sample=None):
        if cond:
            self.ok(key, sample)
        else:
            self.bad(key, where, msg)
        return cond

    def guard(self, label, fn, *a):
        """run one rule; engine limits make it undecided, a missing anchor a violation"""
        try:
            return fn(*a)
        except Missing as e:
            self.bad("anchor:" + label, "?", "anchor missing: %s" % e)
        except Undecided as e:
            self.unsure(label, str(e))
        except (TooComplex, Unsupported) as e:
            self.unsure(label, "%s: %s" % (type(e).__name__, e))
        except RecursionError as e:
            self.unsure(label, "recursion limit")
        except Exception as e:  # the analyser met a form it does not know
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.unsure(label, "%s: %s" % (type(e).__name__, e))

    # ------------------------------------------------------------ anchors
    def fn(self, path, cfg="default", pick=None):
        c = self.prog(cfg).find(path)
        if pick:
            c = [b for b in c if pick(b)]
        if not c:
            raise Missing("function " + path)
        return c[0]

    def has(self, path, cfg="default"):
        return bool(self.prog(cfg).find(path))

    def fi(self, adt, field, variant=0, cfg="default"):
        a = self.prog(cfg).adts.get(adt)
        if a is None:
            raise Missing("type " + adt)
        v = a["variants"][variant] if isinstance(variant, int) else next((x for x in a["variants"] if x["name"] == variant), None)
        if v is None:
            raise Missing("variant %s::%s" % (adt, variant))
        for i, f in enumerate(v["fields"]):
            if f[0] == field:
                return i
        raise Missing("field %s.%s" % (adt, field))

    def vi(self, adt, variant, cfg="default"):
        a = self.prog(cfg).adts.get(adt)
        if a is None:
            raise Missing("type " + adt)
        for i, v in enumerate(a["variants"]):
            if v["name"] == variant:
                return i
        raise Missing("variant %s::%s" % (adt, variant))

    def mkenum(self, adt, variant, fields=(), cfg="default"):
        return t.adt(adt, self.vi(adt, variant, cfg), variant, tuple(fields))

    # ------------------------------------------------------------ cases
    def ctx(self, path, cfg="default", opaque=None, pick=None, **kw):
        b = path if not isinstance(path, str) else self.fn(path, cfg, pick)
        self.funcs.add(b.path)
        return Ctx(self, b, cfg, opaque, **kw)

    def case(self, label, ctx, expect, panics=True, where=None):
        """every returning path of ctx must satisfy expect(out) -> None or a message"""
        outs = ctx.run()
        self.funcs |= ctx.I.inlined
        rets = [o for o in outs if o.kind == "ret"]
        w = where or ctx.where()
        if not rets:
            self.bad(label, w, "no path of %s returns in the case '%s' (%d panicking paths)" % (ctx.body.path, label, len(outs)))
            return outs
        und = None
        for o in rets:
            try:
                m = expect(o)
            except Undecided as e:
                und = e
                continue
            if m:
                self.bad(label, w, "%s: %s\n    path: %s" % (ctx.body.path, m, o.pathdesc()))
                return outs
        if und is not None:
            self.unsure(label, str(und))
        else:
            self.ok(label, rets[0].show())
        return outs


class Ctx:
    def __init__(self, ck, body, cfg, opaque=None, args=None, **kw):
        self.ck = ck
        self.body = body
        self.I = Interp(ck.prog(cfg), opaque=opaque, **kw)
        self.st = State()
        self.st.nfr = 1
        self.fr = Frame(body, 1, None)
        self.a = []
        self.feasible = True
        for i in range(1, body.argc + 1):
            v = None
            if args and i - 1 < len(args):
                v = args[i - 1]
            if v is None:
                v = mk("sym", "arg%d" % (i - 1), body.path)
            p = ck.prog(cfg).prim(body.locals[i][0])
            if p:
                t.settype(v, p)
            self.a.append(v)

    def where(self):
        s = self.body.span
        return "%s (%s)" % (self.body.path, s[0] if s else "?")

    def fld(self, p, *path):
        """value of a field below what pointer p points at"""
        root, pth = self.I.target(p)
        return self.I.load(self.st, root, pth + tuple(("f", e) if isinstance(e, int) else e for e in path))

    def store(self, p, path, v):
        root, pth = self.I.target(p)
        self.I.store(self.st, root, pth + tuple(("f", e) if isinstance(e, int) else e for e in path), v)

    def seq(self, p):
        root, pth = self.I.target(p)
        return self.I.load(self.st, root, pth)

    def len(self, seq):
        return self.I.seqlen(seq)

    def assume(self, cond, val=True):
        if not self.st.assume(cond, val):
            self.feasible = False
        return self

    def run(self):
        for i, v in enumerate(self.a):
            self.st.mem[self.fr.loc(i + 1)] = v
        if not self.feasible:
            return []
        res = []
        for kind, s, info in self.I.explore(self.st, self.fr, 0):
            res.append(Out(self, kind, s, info))
        return res


def follow(ck, o, path, args, opaque=None, cfg="default"):
    """a call of `path` made after the path o: memory and facts are carried over. An argument that
    is not a pointer is placed behind a fresh reference when the parameter is one."""
    b = path if not isinstance(path, str) else ck.fn(path, cfg)
    ck.funcs.add(b.path)
    c = Ctx(ck, b, cfg, opaque)
    c.st = o.st.fork()
    c.st.trace = ()
    c.st.nfr += 1
    c.fr = Frame(b, c.st.nfr, None)
    for i, v in enumerate(args):
        if v is None:
            continue
        if isinstance(v, tuple):
            c.store(c.a[i], (), v[0])
        else:
            c.a[i] = v
    return c


def same_in(st, a, b):
    """equal on this path"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    a, b = st.simp(a), st.simp(b)
    if a is b:
        return True
    try:
        if st.decide(t.eq(a, b)) is True:
            return True
        a, b = st.deep(a), st.deep(b)
        return a is b or st.decide(t.eq(a, b)) is True
    except Exception:
        return False


class Out:
    def __init__(self, ctx, kind, st, info):
        self.ctx = ctx
        self.kind = kind
        self.st = st
        self.info = info
        self.ret = st.mem.get(ctx.fr.loc(0), UNIT) if kind == "ret" else None

    def fld(self, p, *path):
        root, pth = self.ctx.I.target(p)
        return self.ctx.I.load(self.st, root, pth + tuple(("f", e) if isinstance(e, int) else e for e in path))

    def content(self, v):
        return self.ctx.I.content(self.st, v)

    def same(self, a, b):
        return same_in(self.st, a, b)

    def is_ok(self):
        r = self.ret
        return r.op == "agg" and r.a[0][0] == "adt" and r.a[0][3] == "Ok"

    def is_err(self):
        r = self.ret
        return r.op == "agg" and r.a[0][0] == "adt" and r.a[0][3] == "Err"

    def okval(self):
        return self.ret.a[1][0] if self.is_ok() else None

    def pathdesc(self):
        b = "; ".join("%s in [%s,%s]" % (t.show(f), lo, hi) for f, (lo, hi) in list(self.st.bounds.items())[:8])
        return b[:700]

    def show(self):
        return t.show(self.ret)[:300]


def loops(o):
    return [e.r[1] for e in o.st.trace if e.r[0] == "loop"]


def entries(coll):
    """the key/value sequence of a map"""
    return mk("entries", coll)


def visits_all(o, seqs):
    """loops of this finished path that went over every element of one of the sequences:
    an index that starts at 0, advances by 1 in every iteration and equals the length at the exit"""
    res = []
    for lp in loops(o):
        for phi, init in lp.init.items():
            if init is not ZERO or not lp.steps[phi]:
                continue
            if not all(b.simp(s) is b.simp(t.add(phi, ONE)) or same_in(b, s, t.add(phi, ONE)) for s, b in zip(lp.steps[phi], lp.backs)):
                continue
            for sq in seqs:
                if o.same(phi, o.ctx.I.seqlen(sq)):
                    res.append((lp, phi, sq))
    return res


def misses(o, seqs):
    """a reason why the loops of this finished path leave out elements of the sequence, or None:
    the index starts after the first element, or ends at a fixed number the length may exceed"""
    for lp in loops(o):
        for phi, init in lp.init.items():
            if init.op != "int" or not lp.steps[phi]:
                continue
            if not all(same_in(b, s, t.add(phi, ONE)) for s, b in zip(lp.steps[phi], lp.backs)):
                continue
            for sq in seqs:
                n = o.ctx.I.seqlen(sq)
                known = [f for b in lp.backs for f in b.bounds] + [s for ss in lp.steps.values() for s in ss]
                used = any(y.op == "elem" and any(z is phi for z in t.atoms(y.a[1], lambda z: z is phi)) for f in known for y in t.atoms(f, lambda y: y.op == "elem"))
                if init.a[0] > 0 and o.same(phi, n):
                    first = mk("elem", sq, ZERO)
                    if not any(y is first for f in o.st.bounds for y in t.atoms(f, lambda y: y is first)):
                        return "the first %d elements are never looked at" % init.a[0]
                v = o.st.simp(phi)
                lo, hi = o.st.rng(v)
                if used and lo == hi and o.st.decide(t.le(n, phi)) is None and o.st.decide(t.eq(n, phi)) is None:
                    return "only the first %d elements are looked at" % lo
    return None


def turns(o, lp):
    """how often a loop ran, by each of its counters"""
    res = []
    for phi, init in lp.init.items():
        for k in (1, -1):
            if lp.steps[phi] and all(same_in(b, s, t.add(phi, Int(k))) for s, b in zip(lp.steps[phi], lp.backs)):
                v = o.st.simp(phi)
                lo, hi = o.st.rng(v)
                if lo == hi:
                    v = Int(lo)
                res.append(t.mulc(t.sub(v, init), k))
    return res


def want_turns(o, lp, n, what):
    """None when the loop ran n times"""
    ts = turns(o, lp)
    if any(o.same(x, n) for x in ts):
        return None
    m = None
    from absint import witness
    for x in ts:
        lo, hi = o.st.rng(t.sub(x, n))
        if lo > 0 or hi < 0:
            m = "%s is %s, expected %s" % (what, sh(x), sh(n))
            continue
        k, w = witness.compare(o.st, o.st.deep(x), o.st.deep(n), phis=True)
        if k != "differ" or t.atoms(x, lambda y: y.op == "phi"):
            raise Undecided("%s: %s of %s" % (what, sh(x), sh(n)))
        m = "%s is %s, expected %s\n    %s" % (what, sh(x), sh(n), w)
    if m is None:
        raise Undecided("%s: no counter" % what)
    return m


class Undecided(Exception):
    """an equality of values neither proved nor refuted"""


def want_eq(o, got, want, what):
    """None when equal, a message when a witness tells them apart, Undecided otherwise"""
    if o.same(got, want):
        return None
    k, m = tell_apart(o, got, want)
    if k == "differ":
        return "%s is %s, expected %s\n    %s" % (what, sh(got), sh(want), m)
    raise Undecided("%s: %s (%s, expected %s)" % (what, m, sh(got), sh(want)))


def tell_apart(o, got, want):
    """a witness against got == want on this path: as it stands, or with its loops taken no or one turn"""
    from absint import witness

    got, want = o.st.deep(got), o.st.deep(want)
    k, m = witness.compare(o.st, got, want)
    if k == "differ":
        return k, m
    why = [m]
    first = first_round(o)
    if not first:
        return k, m
    tries = [(first, [])]
    for lp in loops(o):
        if len(lp.backs) > 4:
            continue
        for i, b in enumerate(lp.backs):
            second = dict(first)
            for p in lp.init:
                second[p] = t.subst(lp.steps[p][i], first)
            tries.append((second, [(t.subst(c, first), v) for c, v in witness.path_facts(b)]))
    for f, extra in tries:
        k, m = witness.compare(o.st, got, want, first=f, extra=extra)
        if k == "differ":
            return k, m
        if m not in why:
            why.append(m)
    return k, "; ".join(why)


def on(o, st):
    """the outcome o with further facts assumed"""
    import copy

    o = copy.copy(o)
    o.st = st
    return o


def shown(o, cond, msg):
    """None when cond holds on this path, msg with a witness when it can fail"""
    if o.st.decide(cond) is True:
        return None
    k, m = tell_apart(o, cond, TRUE)
    if k == "differ":
        return "%s\n    %s" % (msg, m)
    raise Undecided("%s? %s" % (msg, m))


def taken(o, msg):
    """msg with an input on which this path is taken"""
    from absint import witness as w

    try:
        r = w.differ(ZERO, ONE, w.outside(w.path_facts(o.st), ZERO, ONE))
    except w.Opaque as e:
        raise Undecided("%s? path with unknown part: %s" % (msg, e))
    if r is None:
        raise Undecided("%s? no input found that takes the path" % msg)
    return "%s\n    for %s" % (msg, ", ".join("%s=%s" % kv for kv in list(r[0].items())[:8]))


def first_round(o):
    """initial values of the variables of every loop met"""
    res = {}

    def add(lp, depth=0):
        res.update(lp.init)
        for b in lp.backs:
            for e in b.trace:
                if e.r[0] == "loop" and depth < 4:
                    add(e.r[1], depth + 1)

    for lp in list(getattr(o, "within", ())) + loops(o):
        add(lp)
    return res


def bare(x):
    """a value without the marks of the pointers it was reached through"""
    while x.op == "at" and len(x.a) == 1:
        x = x.a[0]
    return x


def is_variant(x, name):
    return x.op == "agg" and x.a[0][0] == "adt" and x.a[0][3] == name


def sh(x):
    return t.show(x)[:300]


def want_ok(v):
    def f(o):
        if not o.is_ok():
            return "expected Ok(%s), got %s" % (sh(v), sh(o.ret))
        return want_eq(o, o.okval(), v, "the value")

    return f


def want_err(o):
    if not o.is_err():
        return "expected an error, got %s" % sh(o.ret)


def all_of(*fs):
    def f(o):
        for g in fs:
            m = g(o)
            if m:
                return m

    return f



# ---------------------------------------------------------------- domain models
DECR = "util::string_decryptor::Decryptor::"


def keyroot(I, p):
    """identity of the key state a guard/reference points into"""
    r, pth = I.target(p)
    return mk("keyat", r, tuple(pth))


def decrypt_models(fail=False, extra=None):
    """the key state as an abstract stream: decrypting is a length-preserving transform"""

    def enough(c):
        v = mk("call", "key-enough", (keyroot(c.I, c.args[0]), c.args[1]))
        t.settype(v, "bool")
        return c.ret(v)

    def ensure(c):
        I = c.I
        I.event(c.st, "ensure", (keyroot(I, c.args[0]), c.args[1]), c.span)
        res = [("ret", c.st.fork(), t.ok(UNIT))] if not fail else []
        if fail is not False:
            e = mk("call", "key-error", (c.args[1],))
            res.append(("ret", c.st, t.err(e)))
        return res

    def dec(c):
        I = c.I
        seq = c.load(c.args[1])
        I.event(c.st, "decrypt", (keyroot(I, c.args[0]), seq), c.span)
        c.storep(c.args[1], mk("xf", "dec", keyroot(I, c.args[0]), seq))
        return c.ret(UNIT)

    m = {DECR + "is_enough": enough, DECR + "ensure_key_size": ensure, DECR + "decrypt_slice": dec}
    m.update(extra or {})
    return m


def events(o, name):
    """recorded calls of a path, loop bodies not included"""
    return [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1] == name]


def boxed(c, st, v, i):
    """what the box held by variant i of a value points to"""
    x = c.I.proj(st, c.I.proj(st, v, ("vf", i, 0)), ("f", 0))
    if x.op in ("ref", "cref"):
        root, pth = c.I.target(x)
        return c.I.load(st, root, pth)
    return c.I.load(st, mk("deref", x), ())
