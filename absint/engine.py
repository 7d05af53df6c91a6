"""Path-sensitive abstract interpreter over MIR (value-numbering domain).

Every function is interpreted once per feasible combination of undecided branches;
loops are taken to a fixpoint in which everything a loop changes is an opaque loop
symbol with its inferred induction facts. Nothing is executed and no solver is used:
branch feasibility is decided by an interval / bounded linear-combination domain.
"""
import sys
from . import terms as t
from .terms import T, mk, Int, ZERO, ONE, TRUE, FALSE, UNIT, INF

sys.setrecursionlimit(20000)


class TooComplex(Exception):
    pass


class Unsupported(Exception):
    pass


def period(lo, hi, a, b):
    """what a reduction into [a, b] subtracts from every value of [lo, hi], None if it varies"""
    if lo in (INF, -INF) or hi in (INF, -INF):
        return None
    m = b - a + 1
    k = (lo - a) // m
    return k * m if (hi - a) // m == k else None


class State:
    __slots__ = ("mem", "bounds", "ne", "facts", "trace", "nfr", "cnt", "notes")

    def __init__(self):
        self.mem = {}
        self.bounds = {}
        self.ne = {}
        self.facts = {}
        self.trace = ()
        self.nfr = 0
        self.cnt = {}
        self.notes = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.bounds = dict(self.bounds)
        s.ne = dict(self.ne)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.nfr = self.nfr
        s.cnt = dict(self.cnt)
        s.notes = self.notes
        return s

    # ------------------------------------------------------------ numeric domain
    def arng(self, x):
        lo, hi = t.rng(x)
        b = self.bounds.get(x)
        if b is not None:
            lo = max(lo, b[0])
            hi = min(hi, b[1])
        if x.op == "wrap" or x.op == "mul" or x.op == "div":
            r = self.derived(x)
            if r:
                lo = max(lo, r[0])
                hi = min(hi, r[1])
        return lo, hi

    def derived(self, x):
        if x.op == "wrap":
            l, h = self.rng(x.a[0], 0)
            k = period(l, h, *t.INTTY[x.a[1]])
            return None if k is None else (l - k, h - k)
        if x.op == "div" and x.a[1].op == "int" and x.a[1].a[0] > 0:
            l, h = self.rng(x.a[0], 0)
            return t._tdiv(l, x.a[1].a[0]), t._tdiv(h, x.a[1].a[0])
        if x.op == "mul":
            lo, hi = self.arng(x.a[0])
            for y in x.a[1:]:
                l, h = self.arng(y)
                c = [t._m(lo, l), t._m(lo, h), t._m(hi, l), t._m(hi, h)]
                lo, hi = min(c), max(c)
            return lo, hi
        return None

    def rng(self, l, depth=2):
        if l.op == "int":
            return l.a[0], l.a[0]
        c, d = t.aslin(l)
        hi = self.upper(c, d, depth)
        lo = -self.upper(-c, {x: -k for x, k in d.items()}, depth)
        return lo, hi

    def upper(self, c, d, depth):
        hi = c
        for x, k in d.items():
            l, h = self.arng(x)
            hi = hi + (k * h if k > 0 else k * l)
        if depth <= 0 or len(d) < 1:
            return hi
        if len(d) == 1 and hi != INF and not self.bounds:
            return hi
        # combine with known linear facts sharing an atom
        for f, (fl, fh) in self.multi():
            fc, fd = t.aslin(f)
            for x, k in fd.items():
                kd = d.get(x)
                if not kd:
                    continue
                if kd % k:
                    continue
                m = kd // k
                bound = fh if m > 0 else fl
                if bound in (INF, -INF):
                    continue
                nd = dict(d)
                for y, ky in fd.items():
                    nv = nd.get(y, 0) - m * ky
                    if nv:
                        nd[y] = nv
                    else:
                        nd.pop(y, None)
                if len(nd) > len(d) + 1:
                    continue
                v = self.upper(c + m * bound, nd, depth - 1)
                if v < hi:
                    hi = v
                break
        # axioms of division / wrapping atoms
        for x, k in list(d.items()):
            for (f, fl, fh) in self.axioms(x):
                fc, fd = f
                kx = fd[x]
                if k % kx:
                    continue
                m = k // kx
                bound = (fh if m > 0 else fl)
                if bound in (INF, -INF):
                    continue
                nd = dict(d)
                for y, ky in fd.items():
                    nv = nd.get(y, 0) - m * ky
                    if nv:
                        nd[y] = nv
                    else:
                        nd.pop(y, None)
                v = self.upper(c + m * (bound - fc), nd, depth - 1)
                if v < hi:
                    hi = v
        return hi

    def axioms(self, x):
        """[( (const, {atom:coef}), lo, hi )] facts of the form lo <= form <= hi true of atom x"""
        r = []
        if x.op == "div" and x.a[1].op == "int" and x.a[1].a[0] > 0 and self.rng(x.a[0], 0)[0] >= 0:
            k = x.a[1].a[0]
            # 0 <= a - k*q <= k-1
            f = t.sub(x.a[0], t.mulc(x, k))
            r.append((t.aslin(f), 0, k - 1))
            c, d = t.aslin(x.a[0])
            if d and all(v % k == 0 for v in d.values()):
                g = t.fromlin(0, {y: v // k for y, v in d.items()})
                r.append((t.aslin(t.sub(x, g)), c // k, c // k))
        if x.op == "le" and x.a[0] > 1:
            # the same bytes read with the other sign
            half = 1 << (8 * x.a[0] - 1)
            y = t.mk("le", x.a[0], not x.a[1], x.a[2], x.a[3])
            b = self.bounds.get(x if x.a[1] else y), self.bounds.get(y if x.a[1] else x)
            if (b[0] and b[0][0] >= 0) or (b[1] and b[1][1] < half):
                r.append((t.aslin(t.sub(x, y)), 0, 0))
        if x.op == "wrap":
            # v - wrap(v) is a multiple of 2^n; if v is in range now, equal
            l, h = self.rng(x.a[0], 0)
            a, b = t.INTTY[x.a[1]]
            k = period(l, h, a, b)
            if k is not None:
                r.append((t.aslin(t.sub(x.a[0], x)), k, k))
            elif l >= 0 and a >= 0:
                r.append((t.aslin(t.sub(x.a[0], x)), 0, INF))
        if x.op in ("min",):
            for y in x.a:
                r.append((t.aslin(t.sub(x, y)), -INF, 0))
        if x.op in ("max",):
            for y in x.a:
                r.append((t.aslin(t.sub(x, y)), 0, INF))
        if x.op == "rem" and self.rng(x.a[0], 0)[0] >= 0:
            r.append((t.aslin(t.sub(x.a[0], x)), 0, INF))
        return [z for z in r if x in z[0][1]]

    def multi(self):
        return [(f, b) for f, b in self.bounds.items() if f.op == "lin"]

    def add_bound(self, form, lo, hi):
        """form: term without constant"""
        b = self.bounds.get(form, (-INF, INF))
        lo, hi = max(lo, b[0]), min(hi, b[1])
        ne = self.ne.get(form)
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        if form.dom is not None:
            vals = [v for v in form.dom if lo <= v <= hi and not (ne and v in ne)]
            if not vals:
                return False
            lo, hi = min(vals), max(vals)
        if lo > hi:
            return False
        self.bounds[form] = (lo, hi)
        return True

    def split(self, l):
        """linear term -> (form, scale, const): l = scale*form + const, form canonical"""
        c, d = t.aslin(l)
        from math import gcd

        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        first = min(d.items(), key=lambda kv: kv[0].id)
        s = g if first[1] > 0 else -g
        return t.fromlin(0, {x: v // s for x, v in d.items()}), s, c

    def assume(self, cond, val=True):
        """add the fact that boolean term cond has value val; False if contradictory"""
        if cond.op == "int":
            return bool(cond.a[0]) == bool(val)
        d = self.decide(cond)
        if d is not None:
            return d == bool(val)
        op = cond.op
        if op == "not":
            return self.assume(cond.a[0], not val)
        if op == "lt0":
            l = cond.a[0] if val else t.sub(Int(-1), cond.a[0])
            # l <= -1
            f, s, c = self.split(l)
            if s > 0:
                return self.add_bound(f, -INF, (-1 - c) // s)
            return self.add_bound(f, -((-1 - c) // -s), INF)
        if op == "eq0":
            f, s, c = self.split(cond.a[0])
            if val:
                if c % s:
                    return False
                v = -c // s
                if not self.add_bound(f, v, v):
                    return False
                return True
            if c % s:
                return True
            v = -c // s
            self.ne[f] = self.ne.get(f, frozenset()) | {v}
            lo, hi = self.rng(f)
            return self.add_bound(f, lo, hi)
        if op == "and" and val:
            return self.assume(cond.a[0], True) and self.assume(cond.a[1], True)
        if op == "or" and not val:
            return self.assume(cond.a[0], False) and self.assume(cond.a[1], False)
        self.bounds[cond] = (1, 1) if val else (0, 0)
        if op == "seqeq" and val:
            for x, y in ((cond.a[0], cond.a[1]), (cond.a[1], cond.a[0])):
                if y.op == "bytes":
                    self.facts[("str", x)] = y
        return True

    def decide(self, cond):
        """True/False/None"""
        if cond.op == "int":
            return bool(cond.a[0])
        op = cond.op
        b = self.bounds.get(cond)
        if b is not None and b[0] == b[1]:
            return bool(b[0])
        if op == "not":
            d = self.decide(cond.a[0])
            return None if d is None else not d
        if op == "beq":
            d, e = self.decide(cond.a[0]), self.decide(cond.a[1])
            return None if d is None or e is None else d == e
        if op == "lt0":
            lo, hi = self.rng(cond.a[0])
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return None
        if op == "eq0":
            l = cond.a[0]
            lo, hi = self.rng(l)
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            f, s, c = self.split(l)
            if c % s:
                return False
            v = -c // s
            if v in self.ne.get(f, ()):
                return False
            if f.dom is not None and v not in f.dom:
                return False
            return None
        if op == "and":
            a, b = self.decide(cond.a[0]), self.decide(cond.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if op == "or":
            a, b = self.decide(cond.a[0]), self.decide(cond.a[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if op == "seqeq":
            x, y = cond.a
            for p, q in ((x, y), (y, x)):
                k = self.facts.get(("str", p))
                if k is not None and q.op == "bytes":
                    return k is q
        return None

    def known(self, x):
        """integer value of x if fixed"""
        if x.op == "int":
            return x.a[0]
        lo, hi = self.rng(x)
        return lo if lo == hi else None

    def wrap(self, v, ty):
        """v reduced into ty, v itself when this path keeps it in range"""
        r = t.wrap(v, ty)
        if r is not v and r.op != "int":
            lo, hi = self.rng(v)
            a, b = t.INTTY["u64" if ty == "usize" else "i64" if ty == "isize" else ty]
            if a <= lo and hi <= b:
                return v
            k = period(lo, hi, a, b)
            if k is not None:
                return t.sub(v, Int(k))
        return r

    def deep(self, x):
        """simp, with reductions that this path makes exact removed"""
        x = self.simp(x)
        for _ in range(4):
            m = {}
            for a in t.atoms(x, lambda y: y.op == "wrap"):
                v = self.wrap(a.a[0], a.a[1])
                if v is not a:
                    m[a] = v
            if not m:
                break
            x = self.simp(t.subst(x, m))
        return x

    def simp(self, x):
        """substitute atoms whose value is fixed on this path"""
        m = {}
        for f, (lo, hi) in self.bounds.items():
            if lo == hi and f.op != "lin":
                m[f] = Int(lo)
        return t.subst(x, m) if m else x


class Frame:
    __slots__ = ("body", "fid", "depth", "parent")

    def __init__(self, body, fid, parent):
        self.body = body
        self.fid = fid
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0

    def loc(self, i):
        return mk("loc", self.fid, i)

    def stack(self):
        f = self
        r = []
        while f:
            r.append(f.body)
            f = f.parent
        return r


# values whose length is that of what they were made from
SEQLIKE = ("iupd", "ssupd", "phi")


class Loop:
    def __init__(self, uid, body, header, stack):
        self.uid = uid
        self.body = body
        self.header = header
        self.phis = {}  # (root,path) -> phi
        self.init = {}  # phi -> term
        self.steps = {}  # phi -> [term per back edge]
        self.backs = []  # [(state, trace)]
        self.stack = stack
        self.closed = {}

    def __repr__(self):
        return "Loop(%s in %s)" % (self.uid, self.body.path)


class Outcome:
    __slots__ = ("kind", "st", "ret", "info")

    def __init__(self, kind, st, ret=None, info=None):
        self.kind = kind
        self.st = st
        self.ret = ret
        self.info = info

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.ret if self.kind == "ret" else self.info)


def peel(v):
    return v


class Interp:
    def __init__(self, prog, models=None, opaque=None, max_paths=6000, max_depth=60, keep_panics=True, max_steps=400000):
        from . import models as M

        self.prog = prog
        self.models = M
        self.opaque = opaque or {}
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.keep_panics = keep_panics
        self.npaths = 0
        self.steps = 0
        self.max_steps = max_steps
        self.loop_hints = {}
        self.ldepth = 0
        self.arrlen = {}
        self.ccache = {}
        self.uncovered = set()
        self.inlined = set()
        self.loopctr = {}
        self.max_unroll = 40
        self.hooks = {}

    # ------------------------------------------------------------ constants
    def const(self, op, st):
        d = op[1]
        k = id(d)
        r = self.ccache.get(k)
        if r is None:
            r = self.cval(d["v"], d["ty"])
            self.ccache[k] = r
        return r

    def cval(self, v, ty=None):
        p = self.prog
        tk = p.types[ty] if ty is not None else None
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return Int(v)
        if v is None:
            return mk("unk", tk["s"] if tk else "?")
        if isinstance(v, dict):
            if "str" in v:
                return mk("str", v["str"])
            if "bytes" in v:
                b = v["bytes"]
                if isinstance(b, list):
                    return mk("cref", t.array([Int(x) for x in b]))
                return mk("cref", mk("bconst", b))
            if "tuple" in v:
                return t.tuple_(*[self.cval(x) for x in v["tuple"]])
            if "arr" in v:
                return t.array([self.cval(x) for x in v["arr"]])
            if "ref" in v:
                r = v["ref"]
                if isinstance(r, dict) and "str" in r:
                    return mk("str", r["str"])
                return mk("cref", self.cval(r))
            if "adt" in v:
                return t.adt(v["adt"], v["vi"], v["variant"], [self.cval(x) for x in v["fields"]])
            if "f" in v:
                return mk("float", str(v["f"]))
            if "char" in v:
                c = v["char"]
                return Int(c if isinstance(c, int) else ord(c))
            if "fn" in v:
                return mk("fn", v["fn"], v.get("inst") if v.get("inst") is not None else -1)
            if "fnptr" in v:
                x = v["fnptr"]
                if isinstance(x, dict):
                    return mk("fn", x.get("fn", "?"), x.get("inst") if x.get("inst") is not None else -1)
                return mk("fn", str(x), -1)
            if "static" in v:
                return mk("static", v["static"])
            if "closure" in v:
                return mk("agg", ("closure", v["closure"], v.get("inst")), ())
            if "generic" in v:
                return mk("unk", "generic:" + str(v["generic"]))
            if "opaque" in v:
                return mk("unk", str(v["opaque"]) + ":" + (tk["s"] if tk else "?"))
        if isinstance(v, str):
            return mk("str", v)
        if isinstance(v, list):
            return t.array([self.cval(x) for x in v])
        return mk("unk", str(v)[:80])

    # ------------------------------------------------------------ memory
    def init(self, root):
        if root.op == "deref":
            p = root.a[0]
            if p.op == "str":
                return mk("bytes", p.a[0])
            if p.op == "cref":
                return p.a[0]
            if p.op == "static":
                c = self.prog.consts.get(p.a[0])
                if c and c["v"] is not None and not (isinstance(c["v"], dict) and ("staticmem" in c["v"] or "opaque" in c["v"])):
                    return self.cval(c["v"], c["ty"])
            return mk("val", p)
        if root.op == "loc":
            return mk("undef", root.a[0], root.a[1])
        return mk("val", root)

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.init(root)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        base = st.mem.get(root)
        if base is None:
            base = self.init(root)
        st.mem[root] = self.upd(st, base, path, val)

    def proj(self, st, v, e):
        k = e[0]
        op = v.op
        if k == "f":
            if op == "agg":
                if e[1] < len(v.a[1]):
                    return v.a[1][e[1]]
                return mk("fld", v, e[1])
            if op == "upd":
                for p, x in v.a[1]:
                    if p == e:
                        return x
                return self.proj(st, v.a[0], e)
            if op in ("ref", "str", "cref"):
                return v
            return mk("fld", v, e[1])
        if k == "vf":
            if op == "agg":
                if v.a[0][0] == "adt" and v.a[0][2] != e[1]:
                    return mk("undef", "variant", v.id)
                return v.a[1][e[2]]
            if op == "upd":
                for p, x in v.a[1]:
                    if p == e:
                        return x
                return self.proj(st, v.a[0], e)
            if op == "ref":
                return v
            return mk("vfld", v, e[1], e[2])
        if k == "i":
            return self.elem(st, v, e[1])
        if k == "ss":
            return self.subseq(st, v, e[1], e[2])
        if k == "key":
            m = v
            while m.op == "mapins":
                if m.a[1] is e[1]:
                    return m.a[2]
                if self.keys_ne(st, m.a[1], e[1]):
                    m = m.a[0]
                    continue
                break
            return mk("mapget", m, e[1])
        raise Unsupported("proj %s" % (e,))

    def keys_ne(self, st, a, b):
        return st.decide(mk("seqeq", a, b)) is False

    def seqlen(self, v):
        op = v.op
        if op == "agg":
            if v.a[0][0] == "array":
                return Int(len(v.a[1]))
        if op == "bytes":
            return Int(len(v.a[0].encode("utf8", "surrogatepass")))
        if op == "bconst":
            return Int(len(v.a[0]))
        if op == "rep":
            return v.a[1]
        if op == "push":
            return t.add(self.seqlen(v.a[0]), ONE)
        if op == "cat":
            return t.add(self.seqlen(v.a[0]), self.seqlen(v.a[1]))
        if op == "sub":
            return v.a[2]
        if op == "tab":
            return v.a[0]
        if op == "flattab":
            return t.mulc(v.a[0], len(v.a[1]))
        if op == "xf":
            return self.seqlen(v.a[2])
        if op in ("iupd", "ssupd"):
            return self.seqlen(v.a[0])
        if op in ("blocks", "made"):
            return v.a[0]
        if op == "phi" and v in self.arrlen:
            return Int(self.arrlen[v])
        if op == "empty":
            return ZERO
        if op == "resized":
            return v.a[1]
        if op == "rev":
            return self.seqlen(v.a[0])
        if op == "lebytes":
            return Int(v.a[1])
        if op == "arrn":
            return Int(v.a[1])
        return mk("len", v)

    def elem(self, st, v, i):
        op = v.op
        if op == "agg" and v.a[0][0] == "array":
            n = st.known(i)
            if n is not None and 0 <= n < len(v.a[1]):
                return v.a[1][n]
            if v.a[1] and all(x is v.a[1][0] for x in v.a[1]):
                return v.a[1][0]
        elif op == "bytes":
            n = st.known(i)
            b = v.a[0].encode("utf8", "surrogatepass")
            if n is not None and 0 <= n < len(b):
                return Int(b[n])
        elif op == "bconst":
            n = st.known(i)
            if n is not None and 0 <= n < len(v.a[0]):
                return Int(v.a[0][n])
        elif op == "rep":
            return v.a[0]
        elif op == "push":
            n = self.seqlen(v.a[0])
            d = st.decide(t.eq(i, n))
            if d is True:
                return v.a[1]
            if st.decide(t.lt(i, n)):
                return self.elem(st, v.a[0], i)
        elif op == "cat":
            n = self.seqlen(v.a[0])
            d = st.decide(t.lt(i, n))
            if d is True:
                return self.elem(st, v.a[0], i)
            if d is False:
                return self.elem(st, v.a[1], t.sub(i, n))
        elif op == "sub":
            return self.elem(st, v.a[0], t.add(v.a[1], i))
        elif op == "tab":
            return t.subst(v.a[1], {v.a[2]: i})
        elif op == "flattab":
            w = len(v.a[1])
            c, d = t.aslin(i)
            if all(k % w == 0 for k in d.values()):
                q = t.fromlin(c // w, {x: k // w for x, k in d.items()})
                return t.subst(v.a[1][c % w], {v.a[2]: q})
        elif op == "iupd":
            d = st.decide(t.eq(i, v.a[1]))
            if d is True:
                return v.a[2]
            if d is False:
                return self.elem(st, v.a[0], i)
        elif op == "ssupd":
            a, l = v.a[1], v.a[2]
            lo = st.decide(t.lt(i, a))
            if lo is True:
                return self.elem(st, v.a[0], i)
            hi = st.decide(t.lt(i, t.add(a, l)))
            if hi is False:
                return self.elem(st, v.a[0], i)
            if lo is False and hi is True:
                return self.elem(st, v.a[3], t.sub(i, a))
        elif op == "lebytes":
            n = st.known(i)
            if n is not None:
                return t.wrap(t.shr(v.a[0], Int(8 * n)) if t.rng(v.a[0])[0] >= 0 else mk("byte", v.a[0], n), "u8")
        elif op == "resized":
            if st.decide(t.lt(i, self.seqlen(v.a[0]))):
                return self.elem(st, v.a[0], i)
            if st.decide(t.lt(i, self.seqlen(v.a[0]))) is False:
                return v.a[2]
        elif op == "rev":
            return self.elem(st, v.a[0], t.sub(t.sub(self.seqlen(v.a[0]), ONE), i))
        elif op == "seqmap":
            return mk("call", v.a[0], (self.elem(st, v.a[1], i),))
        elif op == "seqof" and v.a[0] == "chars":
            return t.settype(mk("elem", v, i), "char")
        elif op == "seqof" and v.a[0] == "encode_utf16":
            return t.settype(mk("elem", v, i), "u16")
        return mk("elem", v, i)

    def subseq(self, st, v, a, n):
        op = v.op
        if a is ZERO and n is self.seqlen(v):
            return v
        if op == "sub":
            return self.subseq(st, v.a[0], t.add(v.a[1], a), n)
        ka, kn = st.known(a), st.known(n)
        if ka is not None and kn is not None:
            if op == "agg" and v.a[0][0] == "array" and ka + kn <= len(v.a[1]):
                return t.array(v.a[1][ka : ka + kn])
            if kn == 0:
                return t.array(())
        if op == "bytes" and ka is not None and kn is not None:
            b = v.a[0].encode()
            return mk("bytes", b[ka : ka + kn].decode("utf8", "replace"))
        if op == "rep":
            return mk("rep", v.a[0], n)
        if op == "tab":
            return mk("tab", n, t.subst(v.a[1], {v.a[2]: t.add(v.a[2], a)}), v.a[2])
        if op == "cat":
            l0 = self.seqlen(v.a[0])
            if st.decide(t.le(t.add(a, n), l0)):
                return self.subseq(st, v.a[0], a, n)
            if st.decide(t.le(l0, a)):
                return self.subseq(st, v.a[1], t.sub(a, l0), n)
        if op == "ssupd":
            s, l = v.a[1], v.a[2]
            if s is a and l is n:
                return v.a[3]
            if st.decide(t.le(t.add(a, n), s)) or st.decide(t.le(t.add(s, l), a)):
                return self.subseq(st, v.a[0], a, n)
            if st.decide(t.le(s, a)) and st.decide(t.le(t.add(a, n), t.add(s, l))):
                return self.subseq(st, v.a[3], t.sub(a, s), n)
        if op == "iupd":
            if st.decide(t.lt(v.a[1], a)) or st.decide(t.le(t.add(a, n), v.a[1])):
                return self.subseq(st, v.a[0], a, n)
            if st.decide(t.le(a, v.a[1])) and st.decide(t.lt(v.a[1], t.add(a, n))):
                return mk("iupd", self.subseq(st, v.a[0], a, n), t.sub(v.a[1], a), v.a[2])
        return mk("sub", v, a, n)

    def array_len(self, fr, key):
        """number of elements when the place is a whole array variable"""
        root, path = key
        if path or root.op != "loc":
            return None
        while fr is not None and fr.fid != root.a[0]:
            fr = fr.parent
        if fr is None or not isinstance(root.a[1], int) or root.a[1] >= len(fr.body.locals):
            return None
        ty = self.prog.types[fr.body.locals[root.a[1]][0]]
        return ty.get("len") if ty["k"] == "array" and isinstance(ty.get("len"), int) else None

    def rewritten(self, v):
        """an array of known length all elements of which were stored one by one"""
        if not self.arrlen or v.a[1].op != "int":
            return v
        new = {}
        x = v
        while x.op == "iupd" and x.a[1].op == "int":
            new.setdefault(x.a[1].a[0], x.a[2])
            x = x.a[0]
        n = self.arrlen.get(x)
        if n is not None and n <= 64 and len(new) == n and all(i in new for i in range(n)):
            return t.array([new[i] for i in range(n)])
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if len(path) > 1:
            val = self.upd(st, self.proj(st, v, e), path[1:], val)
        k = e[0]
        op = v.op
        if k in ("f", "vf"):
            i = e[-1]
            if op == "agg" and i < len(v.a[1]) and (k == "f" or v.a[0][2] == e[1]):
                f = list(v.a[1])
                f[i] = val
                return mk("agg", v.a[0], tuple(f))
            if self.proj(st, v, e) is val:
                return v
            if op == "upd":
                d = [(p, x) for p, x in v.a[1] if p != e]
                if self.proj(st, v.a[0], e) is not val:
                    d.append((e, val))
                d.sort(key=lambda z: str(z[0]))
                return mk("upd", v.a[0], tuple(d)) if d else v.a[0]
            return mk("upd", v, ((e, val),))
        if k == "i":
            i = e[1]
            n = st.known(i)
            if op == "agg" and v.a[0][0] == "array" and n is not None and 0 <= n < len(v.a[1]):
                f = list(v.a[1])
                f[n] = val
                return mk("agg", v.a[0], tuple(f))
            if self.elem(st, v, i) is val:
                return v
            if op == "push" and st.decide(t.eq(i, self.seqlen(v.a[0]))):
                return mk("push", v.a[0], val)
            if op == "iupd" and st.decide(t.eq(i, v.a[1])):
                return self.rewritten(mk("iupd", v.a[0], i, val))
            return self.rewritten(mk("iupd", v, i, val))
        if k == "ss":
            a, n = e[1], e[2]
            if a is ZERO and n is self.seqlen(v):
                return val
            ka, kn = st.known(a), st.known(n)
            if op == "agg" and v.a[0][0] == "array" and ka is not None and kn is not None:
                f = list(v.a[1])
                for j in range(kn):
                    f[ka + j] = self.elem(st, val, Int(j))
                return mk("agg", v.a[0], tuple(f))
            if op == "ssupd" and v.a[1] is a and v.a[2] is n:
                return mk("ssupd", v.a[0], a, n, val)
            return mk("ssupd", v, a, n, val)
        if k == "key":
            return mk("mapins", v, e[1], val)
        raise Unsupported("upd %s" % (e,))

    def target(self, v):
        """pointer value -> (root, path)"""
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "guard":
            return self.target(v.a[1])
        if v.op == "subptr":
            r, p = self.target(v.a[0])
            return r, addpath(p, ("ss", v.a[1], v.a[2]))
        return mk("deref", v), ()

    def place(self, st, fr, pl):
        root, path = fr.loc(pl[0]), ()
        dc = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, root, path)
                root, path = self.target(v)
                dc = None
            elif k == "dc":
                dc = e[1]
            elif k == "f":
                if dc is not None:
                    path = path + (("vf", dc, e[1]),)
                    dc = None
                else:
                    path = path + (("f", e[1]),)
            elif k == "i":
                iv = self.load(st, fr.loc(e[1]))
                path = addpath(path, ("i", iv))
            elif k == "ci":
                if e[3]:
                    n = self.seqlen(self.load(st, root, path))
                    path = addpath(path, ("i", t.sub(n, Int(e[1]))))
                else:
                    path = addpath(path, ("i", Int(e[1])))
            elif k == "ss":
                fr_, to, fromend = e[1], e[2], e[3]
                if fromend:
                    n = self.seqlen(self.load(st, root, path))
                    path = addpath(path, ("ss", Int(fr_), t.sub(n, Int(fr_ + to))))
                else:
                    path = addpath(path, ("ss", Int(fr_), Int(to - fr_)))
            else:
                raise Unsupported("place elem %s" % (e,))
        return root, path

    def read(self, st, fr, pl):
        root, path = self.place(st, fr, pl)
        v = self.load(st, root, path)
        p = self.prog.prim(pl[2])
        if p:
            t.settype(v, p)
        return v

    def operand(self, st, fr, op):
        if op[0] == "k":
            return self.const(op, st)
        return self.read(st, fr, op[1])

    def content(self, st, v, depth=6):
        """value with pointers replaced by what they point at (argument numbering)"""
        if depth == 0 or not isinstance(v, T):
            return v
        if v.op in ("ref", "str", "cref", "guard", "subptr"):
            r, p = self.target(v)
            return mk("at", self.content(st, self.load(st, r, p), depth - 1))
        if v.op == "agg" and any(x.op in ("ref", "agg", "guard", "subptr", "str", "cref") for x in v.a[1]):
            return mk("agg", v.a[0], tuple(self.content(st, x, depth - 1) for x in v.a[1]))
        if v.op in ("sym", "fld", "vfld", "val", "elem", "call", "ev", "strong", "mapget"):
            r = mk("deref", v)
            if r in st.mem:
                return mk("at", self.content(st, st.mem[r], depth - 1))
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, destty, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            root, path = self.place(st, fr, rv[2] if k == "ref" or len(rv) > 2 else rv[1])
            return self.mkref(st, root, path)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.prog.ts(rv[4]))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            return self.unop(st, rv[1], a, rv)
        if k == "discr":
            v = self.read(st, fr, rv[1])
            return self.discr(v, rv[1][2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kd = rv[1]
            if kd == "array" or (isinstance(kd, list) and kd[0] == "array"):
                return t.array(ops)
            if kd == "tuple" or (isinstance(kd, list) and kd[0] == "tuple"):
                return t.tuple_(*ops)
            if kd[0] == "adt":
                return t.adt(kd[1], kd[2], kd[3], ops)
            if kd[0] == "closure":
                return mk("agg", ("closure", kd[1], kd[3] if len(kd) > 3 else None), tuple(ops))
            if kd[0] == "rawptr" or kd == "rawptr":
                return ops[0]
            return mk("agg", tuple(str(x) for x in kd), tuple(ops))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int):
                if n <= 64:
                    return t.array([v] * n)
                return mk("rep", v, Int(n))
            return mk("rep", v, mk("unk", str(n)))
        raise Unsupported("rvalue %s" % k)

    def mkref(self, st, root, path):
        # reborrow of an opaque pointer is that pointer
        if not path and root.op == "deref":
            return root.a[0]
        if path and path[-1][0] == "ss" and False:
            pass
        return mk("ref", root, path)

    def variants(self, tyid):
        k = self.prog.types[tyid]
        if k["k"] != "adt":
            return None
        a = self.prog.adts.get(k["def"])
        if a is None:
            s = k["def"]
            if s in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::borrow::Cow"):
                return [0, 1]
            return None
        if not a["enum"]:
            return None
        return [v["discr"] for v in a["variants"]]

    def discr(self, v, tyid):
        if v.op == "agg" and v.a[0][0] == "adt":
            vs = self.variants(tyid)
            vi = v.a[0][2]
            if vs:
                return Int(vs[vi])
            return Int(vi)
        if v.op == "upd":
            return self.discr(v.a[0], tyid)
        d = mk("discr", v)
        vs = self.variants(tyid)
        if vs and d.dom is None:
            d.dom = frozenset(vs)
            d.h = None
        return d

    def variant_of(self, st, v, tyid=None):
        """variant index when known on this path, else None"""
        if v.op == "agg" and v.a[0][0] == "adt":
            return v.a[0][2]
        if v.op == "upd":
            return self.variant_of(st, v.a[0])
        d = mk("discr", v)
        n = st.known(d)
        return n

    def whole_batches(self, st, a):
        """(x / k).ceil() * k of a whole number: exact below 2**50"""
        if a.op != "fmul":
            return None
        for k, q in (a.a, a.a[::-1]):
            if k.op != "float" or q.op != "call" or q.a[0] not in ("ceil", "floor") or not float(k.a[0]).is_integer():
                continue
            n = int(float(k.a[0]))
            q, up = q.a[1][0], q.a[0] == "ceil"
            if q.op == "fdiv" and q.a[1] is k and q.a[0].op == "i2f" and n > 0 and n & (n - 1) == 0 and n < 1 << 40:
                x = q.a[0].a[0]
                if st.decide(t.le(ZERO, x)) and st.decide(t.le(x, Int(1 << 50))):
                    r = t.mulc(t.div(t.add(x, Int(n - 1)) if up else x, Int(n)), n)
                    st.assume(t.le(x, r) if up else t.le(r, x), True)
                    return r
        return None

    def cast(self, st, fr, rv):
        kind, a = rv[1], self.operand(st, fr, rv[2])
        f, to = self.prog.ts(rv[3]), self.prog.ts(rv[4])
        if kind == "IntToInt":
            if to in t.INTTY:
                if f not in t.INTTY and a.op == "discr":
                    return a
                r = t.cast(a, f, to)
                if r.op == "wrap":
                    # exact when the path already bounds the value
                    return st.wrap(a, to)
                return r
            return a
        if kind in ("FloatToInt",):
            x = self.whole_batches(st, a) if to == "usize" else None
            return x if x is not None else t.settype(mk("f2i", a, to), to)
        if kind in ("IntToFloat",):
            return mk("i2f", a, to)
        if kind == "FloatToFloat":
            return mk("f2f", a, f, to) if f != to else a
        if kind == "Transmute":
            if f in t.INTTY and to in t.INTTY:
                return t.wrap(a, to)
            fk, tk = self.prog.types[rv[3]], self.prog.types[rv[4]]
            if to in ("f32", "f64") or f in ("f32", "f64"):
                return mk("bits", a, to)
            name = self.prog.ts(rv[4])
            if f in t.INTTY and name.startswith("std::option::Option<") and "NonZero" in name:
                z = st.decide(t.eq(a, ZERO))
                if z is not None:
                    return t.NONE if z else t.some(a)
            return a
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return a
        return a  # pointer coercions keep the pointer

    def binop(self, st, op, a, b, ty):
        isint = ty in t.INTTY
        if op.endswith("WithOverflow"):
            base = op[: -len("WithOverflow")]
            v = {"Add": t.add, "Sub": t.sub, "Mul": t.mul}[base](a, b)
            lo, hi = t.INTTY[ty]
            return t.tuple_(v, or_range(v, lo, hi))
        if op in ("Offset",):
            return mk("ptroff", a, b)
        if isint:
            if op in ("Add", "AddUnchecked"):
                return st.wrap(t.add(a, b), ty)
            if op in ("Sub", "SubUnchecked"):
                return st.wrap(t.sub(a, b), ty)
            if op in ("Mul", "MulUnchecked"):
                return st.wrap(t.mul(a, b), ty)
            if op == "Div":
                return t.div(a, b)
            if op == "Rem":
                return t.rem(a, b)
            if ty == "bool" and op in ("BitAnd", "BitOr"):
                return (t.and_ if op == "BitAnd" else t.or_)(a, b)
            if ty == "bool" and op == "BitXor":
                return t.not_(beq(a, b))
            if op in ("BitAnd", "BitOr", "BitXor"):
                r = t.bitop({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op], [a, b])
                return t.settype(r, ty)
            if op in ("Shl", "ShlUnchecked"):
                return t.settype(t.shl(a, b, ty), ty)
            if op in ("Shr", "ShrUnchecked"):
                return t.settype(t.shr(a, b), ty)
            if op == "Eq":
                return beq(a, b) if ty == "bool" else t.eq(a, b)
            if op == "Ne":
                return t.not_(beq(a, b) if ty == "bool" else t.eq(a, b))
            if op == "Lt":
                return t.lt(a, b)
            if op == "Le":
                return t.le(a, b)
            if op == "Gt":
                return t.lt(b, a)
            if op == "Ge":
                return t.le(b, a)
            if op == "Cmp":
                return mk("cmp3", a, b)
        if ty in ("f32", "f64"):
            if op in ("Add", "Mul"):
                x, y = sorted((a, b), key=lambda z: z.id)
                return mk("f" + op.lower(), x, y)
            if op in ("Sub", "Div", "Rem"):
                return mk("f" + op.lower(), a, b)
            if op == "Eq":
                x, y = sorted((a, b), key=lambda z: z.id)
                return mk("feq", x, y)
            if op == "Ne":
                x, y = sorted((a, b), key=lambda z: z.id)
                return t.not_(mk("feq", x, y))
            if op == "Lt":
                return mk("flt", a, b)
            if op == "Gt":
                return mk("flt", b, a)
            if op == "Le":
                return mk("fle", a, b)
            if op == "Ge":
                return mk("fle", b, a)
        if op in ("Eq", "Ne"):
            if a is b:
                r = TRUE
            elif a.op == "discr" or b.op == "discr" or (a.op == "int" and b.op == "int"):
                r = t.eq(a, b)
            else:
                x, y = sorted((a, b), key=lambda z: z.id)
                r = mk("peq", x, y)
            return r if op == "Eq" else t.not_(r)
        return mk("bin", op, a, b)

    def unop(self, st, op, a, rv):
        if op == "Not":
            ty = self.prog.ts(rv[3]) if len(rv) > 3 and isinstance(rv[3], int) else None
            if a.op in t.BOOLOPS or t.rng(a) == (0, 1) or ty == "bool":
                if a.op not in t.BOOLOPS and a.op != "int":
                    return t.not_(a)
                return t.not_(a)
            if ty in t.INTTY:
                if ty[0] == "u":
                    return t.sub(Int(t.INTTY[ty][1]), a)
                return t.sub(Int(-1), a)
            return mk("bitnot", a)
        if op == "Neg":
            ty = self.prog.ts(rv[3]) if len(rv) > 3 and isinstance(rv[3], int) else None
            if ty in ("f32", "f64"):
                return mk("fneg", a)
            return t.mulc(a, -1)
        if op == "PtrMetadata":
            r, p = self.target(a)
            return self.seqlen(self.load(st, r, p))
        return mk("un", op, a)

    # ------------------------------------------------------------ execution
    def span(self, fr, s):
        return s

    def explore(self, st, fr, bb, loop=None, first_header=None):
        """run from block bb; returns [(kind, state, info)], kind in ret/panic/back/exit"""
        body = fr.body
        loops = body.loops()
        out = []
        work = [(st, bb, first_header is not None)]
        while work:
            st, bb, first = work.pop()
            while True:
                if loop is not None:
                    if bb == loop[0] and not first:
                        out.append(("back", st, bb))
                        break
                    if bb not in loop[1]:
                        out.append(("exit", st, bb))
                        break
                if bb in loops and not first:
                    for kind, s2, info in self.do_loop(st, fr, bb, loops[bb]):
                        if kind == "exit":
                            work.append((s2, info, False))
                        else:
                            out.append((kind, s2, info))
                    break
                first = False
                self.steps += 1
                if self.steps > self.max_steps:
                    raise TooComplex("steps in %s" % body.path)
                succ = self.block(st, fr, bb, out)
                if not succ:
                    break
                if len(succ) == 1:
                    st, bb = succ[0]
                    continue
                self.npaths += len(succ) - 1
                if self.npaths > self.max_paths:
                    raise TooComplex("paths in %s" % body.path)
                for s2, b2 in reversed(succ):
                    work.append((s2, b2, False))
                break
        return out

    def block(self, st, fr, bb, out):
        blk = fr.body.blocks[bb]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[1][2], s[3])
                p = self.prog.prim(s[1][2])
                if p:
                    t.settype(v, p)
                root, path = self.place(st, fr, s[1])
                self.assign(st, fr, root, path, v, s[3])
            elif k == "dead":
                st.mem.pop(fr.loc(s[1]), None)
            elif k == "sd":
                root, path = self.place(st, fr, s[1])
                self.store(st, root, path, mk("setdiscr", self.load(st, root, path), s[2]))
        term = blk["t"]
        k = term[0]
        if k == "goto":
            return [(st, term[1])]
        if k == "switch":
            return self.switch(st, fr, term)
        if k == "ret":
            out.append(("ret", st, None))
            return []
        if k == "drop":
            self.drop(st, fr, term)
            return [(st, term[2])]
        if k == "assert":
            c = self.operand(st, fr, term[1])
            exp = bool(term[2])
            d = st.decide(c)
            if d is not None and d == exp:
                return [(st, term[5])]
            if d is not None and d != exp:
                self.panic(st, fr, ("assert", term[3], term[7] if len(term) > 7 else None), out)
                return []
            if self.keep_panics:
                s2 = st.fork()
                if s2.assume(c, not exp) is not False:
                    self.panic(s2, fr, ("assert", term[3], term[7] if len(term) > 7 else None), out)
            if not st.assume(c, exp):
                return []
            return [(st, term[5])]
        if k == "call":
            return self.call(st, fr, bb, term, out)
        if k == "unreach":
            return []
        return []

    def assign(self, st, fr, root, path, v, span):
        self.store(st, root, path, v)

    def panic(self, st, fr, info, out):
        if self.keep_panics:
            out.append(("panic", st, (info, tuple(b.path for b in fr.stack()))))

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        ty = self.prog.ts(term[4])
        t.settype(v, ty)
        n = st.known(v)
        if n is not None:
            for val, b in term[2]:
                if val == n:
                    return [(st, b)]
            return [(st, term[3])]
        res = []
        rest = st
        blocks = fr.body.blocks
        boolish = v.op in t.BOOLOPS
        for val, b in term[2]:
            if boolish:
                c, cv = v, bool(val)
            else:
                c, cv = t.eq(v, Int(val)), True
            alts = self.assume_all(rest.fork(), c, cv)
            if blocks[b]["t"][0] != "unreach" or blocks[b]["s"]:
                for s2 in alts:
                    res.append((s2, b))
            neg = self.assume_all(rest, c, not cv)
            if not neg:
                rest = None
                break
            if len(neg) > 1:
                # disjunctive remainder
                for s2 in neg:
                    for s3, b3 in self.switch_rest(s2, fr, term, val):
                        res.append((s3, b3))
                rest = None
                break
            rest = neg[0]
        if rest is not None:
            o = term[3]
            if blocks[o]["t"][0] != "unreach":
                res.append((rest, o))
        return res

    def switch_rest(self, st, fr, term, done):
        i = [v for v, _ in term[2]].index(done)
        t2 = ["switch", term[1], term[2][i + 1 :], term[3], term[4]] + list(term[5:])
        if not t2[2]:
            return [(st, term[3])]
        return self.switch(st, fr, t2)

    def assume_all(self, st, c, val):
        """states in which boolean term c has value val (disjunctions split)"""
        d = st.decide(c)
        if d is not None:
            return [st] if d == bool(val) else []
        if c.op == "not":
            return self.assume_all(st, c.a[0], not val)
        if (c.op == "and" and not val) or (c.op == "or" and val):
            want = c.op == "or"
            res = []
            s1 = st.fork()
            for x in self.assume_all(s1, c.a[0], want):
                res.append(x)
            for x in self.assume_all(st, c.a[0], not want):
                res += self.assume_all(x, c.a[1], want)
            return res
        if c.op in ("and", "or"):
            res = []
            for x in self.assume_all(st, c.a[0], val):
                res += self.assume_all(x, c.a[1], val)
            return res
        if c.op == "beq":
            res = []
            s1 = st.fork()
            for s, w in ((s1, True), (st, False)):
                for x in self.assume_all(s, c.a[0], w):
                    res += self.assume_all(x, c.a[1], w == bool(val))
            return res
        return [st] if st.assume(c, val) else []

    def drop(self, st, fr, term):
        try:
            root, path = self.place(st, fr, term[1])
            v = self.load(st, root, path)
        except Unsupported:
            return
        self.drop_value(st, v, term[4] if len(term) > 4 else None)
        if not path and root.op == "loc":
            pass

    def drop_value(self, st, v, span):
        seen = set()
        stack = [v]
        while stack:
            x = stack.pop()
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "guard":
                self.event(st, "unlock", (Int(x.a[2]), x.a[1]), span, record=("unlock", x.a[0], x.a[1]))
            elif x.op == "agg":
                stack += list(x.a[1])

    # ------------------------------------------------------------ events
    def event(self, st, name, args, span=None, record=None):
        key = (name, args)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        r = mk("ev", name, args, n)
        if record is None:
            record = ("call", name, args, r)
        st.trace = st.trace + (Event(record, span),)
        return r

    # ------------------------------------------------------------ calls
    def call(self, st, fr, bb, term, out):
        func, argops, dest, target, unwind = term[1], term[2], term[3], term[4], term[5]
        span = term[6] if len(term) > 6 else None
        args = [self.operand(st, fr, a) for a in argops]
        if func[0] != "k":
            fv = self.operand(st, fr, func)
            callee = {"fn": "fnptr", "name": "fnptr", "args": [], "res": "fnptr", "inst": None, "virt": True}
            if fv.op == "fn" and fv.a[1] >= 0:
                callee = {"fn": fv.a[0], "name": fv.a[0], "args": [], "res": fv.a[0], "inst": fv.a[1], "virt": False}
            elif fv.op == "fn":
                callee = {"fn": fv.a[0], "name": fv.a[0].split("::")[-1], "args": [], "res": fv.a[0], "inst": None, "virt": False}
            else:
                args = [fv] + args
        else:
            callee = func[1]["v"]
        dty = dest[2]
        res = self.invoke(st, fr, callee, args, dty, span, [self.opty(fr, a) for a in argops])
        succ = []
        for kind, s2, val in res:
            if kind == "panic":
                if self.keep_panics:
                    out.append(("panic", s2, val))
                continue
            if target is None:
                self.panic(s2, fr, ("diverge", callee.get("res") or callee.get("fn"), span), out)
                continue
            p = self.prog.prim(dty)
            if p:
                t.settype(val, p)
            root, path = self.place(s2, fr, dest)
            self.assign(s2, fr, root, path, val, span)
            succ.append((s2, target))
        return succ

    def opty(self, fr, o):
        if o[0] == "k":
            return o[1]["ty"]
        return o[1][2]

    def invoke(self, st, fr, callee, args, dty, span, atys=None):
        """[(kind, state, value)] for calling callee"""
        if callee.get("conv"):
            return self.conv_call(st, fr, callee, args, dty, span)
        names = [n for n in (callee.get("res"), callee.get("fn")) if n]
        call = Call(self, st, fr, callee, args, dty, span, atys)
        for n in names:
            o = self.opaque.get(n)
            if o is not None:
                r = o(call)
                if r is not None:
                    return r
        if callee.get("ctor"):
            c = callee["ctor"]
            return [("ret", st, t.adt(c[0], c[1], c[2], args))]
        m = self.models.lookup(call)
        if m is not None:
            r = m(call)
            if r is not None:
                return r
        inst = callee.get("inst")
        if inst is not None and not callee.get("virt"):
            b = self.prog.inst[inst]
            if fr.depth < self.max_depth and b not in fr.stack():
                return self.inline(st, fr, b, args, span)
            return self.opaque_call(call, "rec:" + b.path)
        if callee.get("virt"):
            b = self.devirt(st, names[0], args)
            if b is not None and fr.depth < self.max_depth and b not in fr.stack():
                return self.inline(st, fr, b, args, span)
            return self.opaque_call(call, "virt:" + names[0])
        return self.default_call(call)

    def devirt(self, st, name, args):
        """the implementation a trait object call reaches when the receiver is a known value"""
        if not args or "::" not in name:
            return None
        x = args[0]
        hops = 0
        while x.op == "ref" and hops < 6:
            r, p = self.target(x)
            x = self.load(st, r, p)
            hops += 1
        if hops == 0 or x.op != "agg" or x.a[0][0] != "adt":
            return None
        trait, meth = name.rsplit("::", 1)
        pre, suf = "<%s as %s" % (x.a[0][1], trait), ">::" + meth
        c = [b for p, bs in self.prog.bypath.items() if p.startswith(pre) and p.endswith(suf) for b in bs if b.kind == "fn" and not b.generic]
        return c[0] if len(c) == 1 else None

    def conv_call(self, st, fr, callee, args, dty, span):
        # Fn*::call*(f, (args...))
        f = args[0]
        tup = args[1] if len(args) > 1 else UNIT
        rest = list(tup.a[1]) if tup.op == "agg" else None
        if callee["conv"] == "fndef":
            inner = callee.get("inner")
            if inner is None:
                return self.call_closure(st, fr, f, rest or [tup], None, span)
            if rest is None:
                return self.opaque_call(Call(self, st, fr, inner, args, dty, span, None), inner.get("fn"))
            return self.invoke(st, fr, inner, rest, dty, span)
        inst = callee.get("inst")
        if inst is None and isinstance(callee.get("inner"), dict):
            inst = callee["inner"].get("inst")
        b = self.prog.inst[inst]
        if rest is None:
            n = b.argc - 1
            rest = [self.proj(st, tup, ("f", i)) for i in range(n)]
        return self.call_closure(st, fr, f, rest, b, span)

    def call_closure(self, st, fr, f, rest, b=None, span=None):
        """call a closure / fn value with unpacked arguments"""
        if b is None:
            g = f
            hops = 0
            while g.op == "ref" or g.op == "guard":
                r, p = self.target(g)
                g = self.load(st, r, p)
                hops += 1
                if hops > 8:
                    break
            if g.op == "agg" and g.a[0][0] == "closure" and g.a[0][2] is not None:
                b = self.prog.inst[g.a[0][2]]
            elif g.op == "fn" and g.a[1] >= 0:
                return self.inline(st, fr, self.prog.inst[g.a[1]], rest, span)
            elif g.op == "fn":
                callee = {"fn": g.a[0], "res": g.a[0], "name": g.a[0].split("::")[-1], "args": [], "inst": None, "virt": False}
                return self.invoke(st, fr, callee, rest, 0, span)
            else:
                args = tuple(self.content(st, x) for x in [f] + list(rest))
                return [("ret", st, self.event(st, "callback", args, span))]
        # environment adaptation
        envty = self.prog.types[b.locals[1][0]]
        env = f
        if envty["k"] in ("ref", "ptr"):
            # body wants a pointer to the environment
            if not self.is_ptr_to_closure(st, env):
                st.nfr += 1
                tmp = mk("loc", "c%d" % st.nfr, 0)
                st.mem[tmp] = env
                env = mk("ref", tmp, ())
            else:
                env = self.deref_to_closure(st, env)
        else:
            while env.op == "ref":
                r, p = self.target(env)
                env = self.load(st, r, p)
        return self.inline(st, fr, b, [env] + list(rest), span)

    def is_ptr_to_closure(self, st, v):
        return v.op == "ref" or (v.op not in ("agg", "fn", "unk"))

    def deref_to_closure(self, st, v):
        while v.op == "ref":
            r, p = self.target(v)
            x = self.load(st, r, p)
            if x.op == "ref":
                v = x
            else:
                break
        return v

    def inline(self, st, fr, b, args, span):
        self.inlined.add(b.path)
        st.nfr += 1
        f2 = Frame(b, st.nfr, fr)
        for i, a in enumerate(args):
            st.mem[f2.loc(i + 1)] = a
            p = self.prog.prim(b.locals[i + 1][0])
            if p:
                t.settype(a, p)
        res = []
        for kind, s2, info in self.explore(st, f2, 0):
            if kind == "ret":
                v = s2.mem.get(f2.loc(0), UNIT)
                self.pop(s2, f2)
                res.append(("ret", s2, v))
            else:
                res.append((kind, s2, info))
        return res

    def pop(self, st, f2):
        n = len(f2.body.locals)
        for i in range(n):
            st.mem.pop(mk("loc", f2.fid, i), None)

    def mut_roots(self, st, v, acc, depth=4):
        """memory reachable through pointers in v"""
        if depth == 0:
            return
        if v.op in ("ref", "subptr", "guard"):
            r, p = self.target(v)
            acc.append((r, p))
        elif v.op == "agg":
            for x in v.a[1]:
                self.mut_roots(st, x, acc, depth - 1)

    def opaque_call(self, call, name, havoc=True):
        st = call.st
        args = tuple(self.content(st, a) for a in call.args)
        r = self.event(st, name, args, call.span)
        if havoc:
            self.havoc(call, r)
        return [("ret", st, r)]

    def reach_mut(self, st, v, tyid, acc, depth=5):
        """memory a callee may change through value v of type tyid: [(root, path)]"""
        if depth == 0 or tyid is None:
            return
        ty = self.prog.types[tyid]
        k = ty["k"]
        if k == "ref":
            if v.op not in ("ref", "subptr", "guard", "deref", "val", "sym", "fld", "proj", "phi"):
                return
            rt, p = self.target(v)
            inner = self.load(st, rt, p)
            if ty.get("mut"):
                self.reach_mut(st, inner, ty["to"], acc, depth - 1)
                acc.append((rt, p))
            else:
                self.cells(st, rt, p, ty["to"], acc, depth - 1)
        elif k == "adt":
            a = self.prog.adts.get(ty["def"])
            if a is None or a["enum"]:
                return
            for i, f in enumerate(a["variants"][0]["fields"]):
                if self.prog.types[f[1]]["k"] in ("ref", "adt"):
                    self.reach_mut(st, self.proj(st, v, ("f", i)), f[1], acc, depth - 1)
        elif k == "tuple":
            for i, f in enumerate(ty.get("of", ())):
                self.reach_mut(st, self.proj(st, v, ("f", i)), f, acc, depth - 1)

    def cells(self, st, rt, p, tyid, acc, depth):
        """interior-mutable parts behind a shared reference"""
        ty = self.prog.types[tyid]
        if depth == 0 or ty["k"] != "adt":
            return
        if ty["def"] == "std::cell::Cell":
            acc.append((rt, p + (("f", 0),)))
            return
        a = self.prog.adts.get(ty["def"])
        if a is None or a["enum"]:
            return
        for i, f in enumerate(a["variants"][0]["fields"]):
            if self.prog.types[f[1]]["k"] == "adt":
                self.cells(st, rt, p + (("f", i),), f[1], acc, depth - 1)

    def havoc(self, call, r):
        st = call.st
        if call.callee.get("inst") is not None and call.atys:
            acc = []
            for i, a in enumerate(call.args):
                if i < len(call.atys):
                    self.reach_mut(st, a, call.atys[i], acc)
            for j, (rt, p) in enumerate(acc):
                old = self.load(st, rt, p)
                h = mk("hav", r, "m", j)
                if old.ty:
                    t.settype(h, old.ty)
                self.store(st, rt, p, h)
        for i, a in enumerate(call.args):
            ty = None
            if call.atys and i < len(call.atys):
                ty = self.prog.types[call.atys[i]]
            if ty is not None and ty["k"] in ("ref", "ptr") and not ty.get("mut"):
                continue
            if ty is not None and ty["k"] == "ref" and ty.get("mut") and a.op != "ref":
                rt, p = self.target(a)
                self.store(st, rt, p, mk("hav", r, i))
                continue
            acc = []
            self.mut_roots(st, a, acc)
            if ty is not None and ty["k"] not in ("ref", "ptr", "closure", "adt"):
                continue
            if ty is not None and ty["k"] in ("adt",):
                continue
            for j, (rt, p) in enumerate(acc):
                self.store(st, rt, p, mk("hav", r, i, j))

    def default_call(self, call):
        """unknown extern: pure in its arguments unless one is a mutable reference"""
        st = call.st
        name = call.callee.get("res") or call.callee.get("fn")
        self.uncovered.add(name)
        mut = False
        if call.atys:
            for ty in call.atys:
                k = self.prog.types[ty]
                if k["k"] == "ref" and k.get("mut"):
                    mut = True
        if mut:
            return self.opaque_call(call, name)
        args = tuple(self.content(st, a) for a in call.args)
        return [("ret", st, mk("call", name, args))]

    # ------------------------------------------------------------ loops
    def unroll(self, st0, fr, header, blocks):
        """the outcomes of a loop whose every iteration is decided and that ends soon, else None"""
        np = self.npaths
        st = st0.fork()
        try:
            for it in range(self.max_unroll + 1):
                res = self.explore(st, fr, header, (header, blocks), first_header=True)
                backs = [s for k, s, i in res if k == "back"]
                if not backs:
                    return res if it else None
                if len(res) != 1:
                    break
                st = backs[0]
        except TooComplex:
            pass
        self.npaths = np
        return None

    def do_loop(self, st0, fr, header, blocks, may_split=True):
        if may_split:
            res = self.unroll(st0, fr, header, blocks)
            if res is not None:
                return res
        n = st0.cnt.get("loop", 0)
        orig = st0.fork() if may_split else None
        st0.cnt["loop"] = n + 1
        lp = Loop("L%d" % n, fr.body, header, [b.path for b in fr.stack()])
        locs = {}  # (root,path) -> phi
        facts = []
        base_trace = st0.trace
        final = None
        stable_rounds = 0
        # what an earlier round of the enclosing loop found is tried first, and checked like anything else
        hkey = (lp.uid, header, fr.fid, tuple(lp.stack))
        hinted = self.loop_hints.get(hkey) if self.ldepth else None
        if hinted is not None:
            for key, phi in hinted[0]:
                if key[0] in st0.mem or key[0].op != "loc":
                    locs[key] = phi
            m0 = {phi: self.load(st0, k[0], k[1]) for k, phi in locs.items()}
            facts = [f for f in hinted[1] if st0.decide(t.subst(f, m0)) is True]
        for it in range(40):
            st = st0.fork()
            st.trace = ()
            for (root, path), phi in locs.items():
                self.store(st, root, path, phi)
            okf = True
            for c in facts:
                if not st.assume(c, True):
                    okf = False
            np, nsteps = self.npaths, self.steps
            self.ldepth += 1
            try:
                res = self.explore(st, fr, header, (header, blocks), first_header=True)
            finally:
                self.ldepth -= 1
            # remember header memory
            backs = [s for k, s, i in res if k == "back"]
            if hinted is not None:
                hinted = None
                steps = [{phi: self.load(b, k[0], k[1]) for k, phi in locs.items()} for b in backs]
                if any(all(m[phi] is phi for m in steps) for phi in locs.values()) or any(
                    b.decide(t.subst(f, m)) is not True for f in facts for b, m in zip(backs, steps)
                ):
                    locs, facts = {}, []
                    self.npaths = np
                    continue
            newlocs = {}
            for b in backs:
                hst = st0
                for root, val in b.mem.items():
                    if root in st0.mem:
                        hv = st0.mem[root]
                    elif root.op == "loc":
                        continue
                    else:
                        hv = self.init(root)
                    # header value incl. phis
                    for (r2, p2), phi in locs.items():
                        if r2 is root:
                            hv = self.upd(st0, hv, p2, phi)
                    if hv is val:
                        continue
                    self.diff(st0, hv, val, root, (), locs, newlocs)
            if newlocs:
                self.npaths = np
                for key in newlocs:
                    # a broader location subsumes narrower ones
                    for k2 in list(locs):
                        if k2[0] is key[0] and k2[1][: len(key[1])] == key[1]:
                            del locs[k2]
                    locs[key] = mk("phi", lp.uid, pathname(fr, key))
                    iv = self.load(st0, key[0], key[1])
                    n = self.array_len(fr, key)
                    if n is not None:
                        self.arrlen[locs[key]] = n
                    if iv.ty and locs[key].ty is None:
                        t.settype(locs[key], iv.ty)
                facts = []
                continue
            # stable: infer induction facts and run once more with them
            nf = self.loop_facts(st0, lp, locs, backs, facts)
            new = [c for c in nf if c not in facts]
            if new and stable_rounds < 4:
                stable_rounds += 1
                facts = list(dict.fromkeys(facts + new))
                self.npaths = np
                continue
            final = (res, backs)
            break
        if final is None:
            raise TooComplex("loop fixpoint in %s" % fr.body.path)
        res, backs = final
        self.loop_hints[hkey] = (list(locs.items()), list(facts))
        lp.facts = facts
        for key, phi in locs.items():
            lp.phis[key] = phi
            lp.init[phi] = self.load(st0, key[0], key[1])
            lp.steps[phi] = [self.load(b, key[0], key[1]) for b in backs]
        lp.backs = backs
        lp.base = st0
        self.closed_forms(st0, lp, res)
        if may_split:
            # the bound of a counted loop may lie below its start: treat the empty loop apart
            split = []
            for phi, (i, d) in lp.ind.items():
                if not split and d.op == "int" and d.a[0] in (1, -1):
                    split = self.entry_splits(st0, phi, locs, backs, facts)
            for c in split:
                out = []
                for val in (True, False):
                    for s2 in self.assume_all(orig.fork(), c, val):
                        out += self.do_loop(s2, fr, header, blocks, False)
                return out
        out = []
        for kind, s, info in res:
            if kind == "back":
                continue
            tr = s.trace
            if not backs and not locs:
                s.trace = base_trace + tr
            else:
                s.trace = base_trace + (Event(("loop", lp), None),) + tr
            if kind == "exit":
                self.apply_closed(s, lp)
            elif kind == "ret":
                pass
            out.append((kind, s, info))
        return out

    def diff(self, st, h, v, root, path, locs, new):
        if h is v:
            return
        if (root, path) in locs or (root, path) in new:
            return
        if h.op == "agg" and v.op == "agg" and h.a[0] == v.a[0] and len(h.a[1]) == len(v.a[1]) and h.a[0][0] != "array":
            k = h.a[0]
            for i, (x, y) in enumerate(zip(h.a[1], v.a[1])):
                if k[0] == "adt" and k[2] != 0 or (k[0] == "adt" and k[3] and k[1] not in ("",) and self.is_enum(k[1])):
                    e = ("vf", k[2], i)
                else:
                    e = ("f", i)
                self.diff(st, x, y, root, path + (e,), locs, new)
            return
        hb, hd = (h.a[0], dict(h.a[1])) if h.op == "upd" else (h, {})
        vb, vd = (v.a[0], dict(v.a[1])) if v.op == "upd" else (v, {})
        if hb is vb and (hd or vd):
            for e in set(hd) | set(vd):
                self.diff(st, self.proj(st, h, e), self.proj(st, v, e), root, path + (e,), locs, new)
            return
        new[(root, path)] = True

    def is_enum(self, path):
        a = self.prog.adts.get(path)
        if a is not None:
            return a["enum"]
        return path in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow")

    def loop_facts(self, st0, lp, locs, backs, have):
        facts = []
        for key, phi in locs.items():
            init = self.load(st0, key[0], key[1])
            steps = [self.load(b, key[0], key[1]) for b in backs]
            if not steps:
                continue
            isnum = init.op in ("int", "lin", "wrap", "le", "len") or phi.ty in t.INTTY or init.ty in t.INTTY
            if phi.ty is None:
                for s in steps:
                    for x in [s]:
                        if x.ty in t.INTTY:
                            t.settype(phi, x.ty)
                    c, d = t.aslin(s)
                    if phi in d and (d[phi] == 1):
                        isnum = True
            if not isnum:
                # a sequence whose length no round changes
                if phi.ty is None and init.op not in ("ref", "str", "int", "lin") and not (init.op == "agg" and init.a[0] != ("array",)):
                    n = mk("len", phi)
                    if phi not in self.arrlen and all(x.op in SEQLIKE and b.decide(t.eq(self.seqlen(x), n)) is True for x, b in zip(steps, backs)):
                        facts.append(t.eq(n, self.seqlen(init)))
                continue
            if init.op in ("agg", "ref", "str"):
                continue
            up = all(b.rng(t.sub(s, phi))[0] >= 0 for s, b in zip(steps, backs))
            dn = all(b.rng(t.sub(s, phi))[1] <= 0 for s, b in zip(steps, backs))
            if up and not dn:
                facts.append(t.le(init, phi))
            if dn and not up:
                facts.append(t.le(phi, init))
            # all steps nonnegative and init nonnegative
            if not up and all(b.rng(s)[0] >= 0 for s, b in zip(steps, backs)) and st0.rng(init)[0] >= 0:
                facts.append(t.le(ZERO, phi))
        # candidate upper/lower bounds taken from guards seen on back edges
        cand = set()
        phis = set(locs.values())
        for b in backs:
            for f, (lo, hi) in b.bounds.items():
                if st0.bounds.get(f) == (lo, hi):
                    continue
                c, d = t.aslin(f)
                ph = [x for x in d if x in phis]
                if len(ph) != 1:
                    continue
                if any(t.contains(x, lambda y: y in phis) for x in d if x not in phis):
                    continue
                if hi != INF:
                    cand.add(t.le(f, Int(hi + 1)))
                    cand.add(t.le(f, Int(hi)))
                if lo != -INF:
                    cand.add(t.le(Int(lo - 1), f))
                    cand.add(t.le(Int(lo), f))
        # relations between two induction variables: phi1 - k*phi2 constant
        num = []
        for key, phi in locs.items():
            init = self.load(st0, key[0], key[1])
            ds = set()
            for b in backs:
                dl = t.sub(self.load(b, key[0], key[1]), phi)
                ds.add(dl.a[0] if dl.op == "int" else None)
            if len(ds) == 1 and None not in ds and phi.ty in t.INTTY:
                num.append((phi, init, ds.pop()))
        for i in range(len(num)):
            for j in range(len(num)):
                if i == j:
                    continue
                p, a, x = num[i]
                q, c, y = num[j]
                if y != 0 and x % y == 0 and (abs(x) > abs(y) or i < j):
                    k = x // y
                    facts.append(t.eq(t.sub(p, t.mulc(q, k)), t.sub(a, t.mulc(c, k))))
        for c in cand:
            if c.op == "int" or c in facts or c in have:
                continue
            m0 = {phi: self.load(st0, k[0], k[1]) for k, phi in locs.items()}
            if st0.decide(t.subst(c, m0)) is not True:
                continue
            okc = True
            for b in backs:
                m = {phi: self.load(b, k[0], k[1]) for k, phi in locs.items()}
                b2 = b
                if b2.decide(t.subst(c, m)) is not True:
                    okc = False
                    break
            if okc:
                facts.append(c)
        return facts

    def entry_splits(self, st0, idx, locs, backs, have):
        """inductive bounds of a loop counter that are undecided at loop entry"""
        phis = set(locs.values())
        m0 = {phi: self.load(st0, k[0], k[1]) for k, phi in locs.items()}
        res = []
        for b in backs:
            for f, (lo, hi) in b.bounds.items():
                if st0.bounds.get(f) == (lo, hi):
                    continue
                c, d = t.aslin(f)
                k = d.get(idx)
                if k not in (1, -1) or any(t.contains(x, lambda y: y in phis) for x in d if x is not idx):
                    continue
                if k == 1 and hi != INF:
                    g = t.le(f, Int(hi + 1))
                elif k == -1 and lo != -INF:
                    g = t.le(Int(lo - 1), f)
                else:
                    continue
                if g in have or g in res:
                    continue
                e = t.subst(g, m0)
                if st0.decide(e) is not None:
                    continue
                if all(b2.decide(t.subst(g, {phi: self.load(b2, kk[0], kk[1]) for kk, phi in locs.items()})) is True for b2 in backs):
                    res.append(g)
        return [t.subst(g, m0) for g in res][:1]

    # closed forms of counters and element-wise sequences
    def closed_forms(self, st0, lp, res):
        lp.ind = {}
        for phi, steps in lp.steps.items():
            ds = set()
            for s in steps:
                d = t.sub(s, phi) if s.op in ("lin", "int") or phi.ty in t.INTTY else None
                if d is None:
                    ds.add(None)
                    continue
                if t.contains(d, lambda y: y.op == "phi" and y.a[0] == lp.uid):
                    ds.add(None)
                else:
                    ds.add(d)
            if len(ds) == 1 and None not in ds:
                lp.ind[phi] = (lp.init[phi], ds.pop())
        lp.maps = {}
        if len(lp.backs) != 1:
            return
        b = lp.backs[0]
        units = [(p, i) for p, (i, d) in lp.ind.items() if d is ONE]
        if not units:
            return
        idx, i0 = units[0]
        lp.idx = (idx, i0)
        # express every other linear counter through idx
        m = {}
        for p, (i, d) in lp.ind.items():
            if p is not idx:
                m[p] = t.add(i, t.mul(d, t.sub(idx, i0)))
        lp.ctrmap = m
        for phi, steps in sorted(lp.steps.items(), key=lambda kv: kv[1][0].op == "push"):
            s = steps[0]
            if phi in lp.ind:
                continue
            pushes = []
            x = s
            while x.op == "push":
                pushes.append(x.a[1])
                x = x.a[0]
            pushes.reverse()
            if x is phi and pushes:
                # elements of a sequence updated in place by this loop, read before their turn
                seen = {}
                for q, (k, els) in lp.maps.items():
                    if k == "inplace":
                        seen[mk("elem", q, els[0])] = self.elem(st0, lp.init[q], els[0])
                els = [t.subst(t.subst(e, m), seen) for e in pushes]
                if not any(t.contains(e, lambda y: y.op == "phi" and y.a[0] == lp.uid and y is not idx) for e in els):
                    lp.maps[phi] = ("push", els)
                continue
            # in place: iupd(phi, i, e) for consecutive i
            ups = []
            x = s
            while x.op == "iupd":
                ups.append((t.subst(x.a[1], m), x.a[2]))
                x = x.a[0]
            ups.reverse()
            if x is phi and len(ups) == 1:
                i, e = ups[0]
                e = t.subst(e, m)
                dlt = t.sub(i, idx)
                if not t.contains(dlt, lambda y: y.op == "phi" and y.a[0] == lp.uid):
                    ob = mk("elem", phi, i)
                    e2 = t.subst(e, {ob: mk("elem", mk("phi0"), i)})
                    if not t.contains(e2, lambda y: y.op == "phi" and y.a[0] == lp.uid and y is not idx):
                        lp.maps[phi] = ("inplace", (i, e2, dlt))

    def apply_closed(self, s, lp):
        """after the loop: replace loop symbols by closed forms where the trip count is known"""
        ind = getattr(lp, "ind", None)
        if not ind or not getattr(lp, "idx", None):
            return
        idx, i0 = lp.idx
        # value of idx at this exit
        lo, hi = None, None
        n = self.idx_value(s, idx, lp)
        if n is None:
            return
        cnt = t.sub(n, i0)
        m = {}
        for p, (i, d) in ind.items():
            m[p] = t.add(i, t.mul(d, cnt)) if p is not idx else n
        bv0 = 0
        for phi, (k, els) in lp.maps.items():
            if k == "push":
                w = len(els)
                if w == 1:
                    bv = fresh_bv(els[0])
                    e = t.subst(els[0], {idx: t.add(bv, i0)})
                    tab = mk("tab", cnt, e, bv)
                    init = lp.init[phi]
                    m[phi] = tab if self.seqlen(init) is ZERO else mk("cat", init, tab)
                else:
                    bv = fresh_bv(t.tuple_(*els))
                    es = tuple(t.subst(e, {idx: t.add(bv, i0)}) for e in els)
                    tab = mk("flattab", cnt, es, bv)
                    init = lp.init[phi]
                    m[phi] = tab if self.seqlen(init) is ZERO else mk("cat", init, tab)
            else:
                i, e, dlt = els
                init = lp.init[phi]
                bv = fresh_bv(e)
                # element number j = idx + dlt, j from i0+dlt
                j0 = t.add(i0, dlt)
                e2 = t.subst(e, {idx: t.add(t.add(bv, j0), t.mulc(dlt, -1))})
                e2 = t.subst(e2, {mk("elem", mk("phi0"), t.add(bv, j0)): self.elem(s, init, t.add(bv, j0))})
                if t.contains(e2, lambda y: y.op == "phi0"):
                    continue
                whole = j0 is ZERO and s.decide(t.eq(cnt, self.seqlen(init)))
                tab = mk("tab", cnt, e2, bv)
                m[phi] = tab if whole else mk("ssupd", init, j0, cnt, tab)
        if not m:
            return
        # accumulators: the value after cnt steps of their own step function
        if len(lp.backs) == 1:
            own = lambda y: y.op == "phi" and y.a[0] == lp.uid
            for phi, steps in lp.steps.items():
                if phi in m or phi in ind:
                    continue
                if phi.ty is None and lp.init[phi].op != "int":
                    continue
                e = t.subst(steps[0], lp.ctrmap)
                if any(y is not phi and y is not idx for y in t.atoms(e, own)):
                    continue
                if t.contains(e, lambda y: y.op in ("deref", "val") and t.contains(y, own)):
                    continue
                bv = fresh_bv(e)
                acc = mk("acc", bv.a[0], phi.ty)
                if acc.ty is None:
                    acc.ty = phi.ty
                e2 = t.subst(e, {phi: acc, idx: t.add(bv, i0)})
                f = mk("fold", lp.init[phi], e2, bv, acc, cnt)
                if phi.ty:
                    t.settype(f, phi.ty)
                m[phi] = f
        memo = {}
        for r, v in list(s.mem.items()):
            s.mem[r] = t.subst(v, m, memo)
        # keep the facts about the loop symbols (harmless) and remember the exit count
        s.notes = s.notes + (("count", lp.uid, cnt), ("closed", m))

    def idx_value(self, s, idx, lp):
        k = s.known(idx)
        if k is not None:
            return Int(k)
        # an equality idx = e on the path
        for f, (lo, hi) in s.bounds.items():
            if f.op != "lin":
                continue
            c, d = t.aslin(f)
            kx = d.get(idx)
            if kx not in (1, -1):
                continue
            if any(t.contains(x, lambda y: y.op == "phi" and y.a[0] == lp.uid) for x in d if x is not idx):
                continue
            l2, h2 = s.rng(f)
            if l2 == h2:
                # kx*idx + rest = l2
                rest = t.sub(f, t.mulc(idx, kx))
                return t.mulc(t.sub(Int(l2), rest), kx)
        return None


class Event:
    __slots__ = ("r", "span")

    def __init__(self, r, span):
        self.r = r
        self.span = span

    def __repr__(self):
        return repr(self.r)

    def __eq__(self, o):
        return isinstance(o, Event) and self.r == o.r

    def __hash__(self):
        return hash(self.r)


class Call:
    __slots__ = ("I", "st", "fr", "callee", "args", "dty", "span", "atys")

    def __init__(self, I, st, fr, callee, args, dty, span, atys):
        self.I = I
        self.st = st
        self.fr = fr
        self.callee = callee
        self.args = args
        self.dty = dty
        self.span = span
        self.atys = atys

    @property
    def self_ty(self):
        a = self.callee.get("args") or []
        for x in a:
            if isinstance(x, int):
                return self.I.prog.ts(x)
        return ""

    def tyarg(self, i):
        a = [x for x in (self.callee.get("args") or []) if isinstance(x, int)]
        return self.I.prog.types[a[i]] if i < len(a) else None

    def load(self, p):
        r, path = self.I.target(p)
        return self.I.load(self.st, r, path)

    def storep(self, p, v, st=None):
        r, path = self.I.target(p)
        self.I.store(st or self.st, r, path, v)

    def ret(self, v):
        return [("ret", self.st, v)]


def addpath(path, e):
    if path and path[-1][0] == "ss":
        a = path[-1][1]
        if e[0] == "i":
            return path[:-1] + (("i", t.add(a, e[1])),)
        if e[0] == "ss":
            return path[:-1] + (("ss", t.add(a, e[1]), e[2]),)
    return path + (e,)


def or_range(v, lo, hi):
    l, h = t.rng(v)
    a = FALSE if l >= lo else t.lt(v, Int(lo))
    b = FALSE if h <= hi else t.lt(Int(hi), v)
    return t.or_(a, b)


def beq(a, b):
    """equality of booleans"""
    for x, y in ((a, b), (b, a)):
        if x.op == "int":
            return y if x.a[0] else t.not_(y)
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("beq", x, y)


def pathname(fr, key):
    r, p = key
    return (r, p)


def fresh_bv(e):
    n = 0
    for x in t.atoms(e, lambda y: y.op == "bv"):
        n = max(n, x.a[0] + 1)
    b = mk("bv", n)
    b.dom = None
    if b.ty is None:
        b.ty = "u64"
    return b
